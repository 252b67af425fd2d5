"""Loops whose number of turns is not known: cut at the head, by induction on the turn number.

The locations a turn changes are found by running it; each gets a shape, the value at the head of
turn n.  A shape is only kept if every path through the body takes it from n to n+1.
"""
import z3
from values import *
import values
from ropes import *
from engine import Budget

class OuterBreak(Exception): pass

class Case(object):
    def __init__(self, D, F, vals, heap):
        self.D = D; self.F = F; self.vals = vals; self.heap = heap

# ---------------------------------------------------------------- shapes

class Same(object):
    def __init__(self, v0): self.v0 = v0
    def at(self, L, n): return self.v0
class PoisonS(object):
    def __init__(self, loc): self.loc = loc
    def at(self, L, n): return Poison(self.loc)
class Lin(object):
    def __init__(self, v0, c): self.v0 = v0; self.c = c
    def at(self, L, n):
        if isinstance(self.v0, Flt) or isinstance(self.c, Flt):
            return Flt.of(self.v0) + Flt.of(self.c) * Flt.of(SInt(n))
        return mkint(iv(self.v0) + iv(self.c) * n)
class App(object):
    """v0 ++ X_0 ++ ... ++ X_(n-1)"""
    def __init__(self, L, loc, v0):
        self.v0 = v0; self.loc = loc
        self.text = is_bytes(v0)
        self.gen = Gen(lambda *a: L.item(self.loc, a[-1], a[:-1]), tuple(eng().loopstack[:L.depth]))
        if not self.gen.params:
            self.gen = Gen(lambda i: L.item(self.loc, i, ()), ())
        self._one = self.one
        self.mode = None         # 'byte' (constant byte), 'one' (a single item), None
        self.byte = None
    def at(self, L, n):
        if self.text:
            if self.mode == 'byte':
                return cat(self.v0, norm([RS(self.byte, mkint(n))]))
            return cat(self.v0, norm([FS(self.gen, mkint(n))]))
        v0 = self.v0
        if self.mode == 'one':
            return v0.plus(LRope([GS(Gen(self._one, self.gen.params, None, self.gen.key + 'o'), 0, mkint(n))]))
        return v0.plus(LRope([FL(self.gen, mkint(n))]))
    def one(self, *a):
        r = self.gen.fn(*a)
        return r.concrete()[0]
class Pop(object):
    def __init__(self, v0, k): self.v0 = v0; self.k = k
    def at(self, L, n):
        E = eng()
        k = abs(self.k)             # taken from the front, or from the end if negative
        a = mkint(n * k)
        ln = self.v0.length() if not is_bytes(self.v0) else str_len(self.v0)
        E.fact(z3.Or(n <= 0, iv(a) - k < iv(ln)))
        if is_bytes(self.v0):
            return slice_str(self.v0, a, None) if self.k > 0 else slice_str(self.v0, 0, sub(ln, a))
        if not (a <= ln):
            return LRope()
        return self.v0.slice(a, ln) if self.k > 0 else self.v0.slice(0, sub(ln, a))
class Once(object):
    """the same value after every turn"""
    def __init__(self, v0, c): self.v0 = v0; self.c = c
    def at(self, L, n):
        n = mkint(n)
        if not (n >= 1 if isinstance(n, int) else bool(n >= 1)): return self.v0
        return self.c
class Havoc(object):
    def __init__(self, L, loc, v0, sort):
        self.v0 = v0; self.sort = sort
        self.name = eng().uid('h')
        self.cands = None
    def term(self, L, n):
        st = L.outer
        return fun(self.name, *([I] * (len(st) + 1) + [self.sort]))(*(tuple(st) + (n,)))
    def wrap(self, t):
        return SInt(t) if self.sort is I else SBool(t) if self.sort is B else Flt(t)
    def at(self, L, n):
        return self.wrap(self.term(L, n))
    def tm(self, v):
        return iv(v) if self.sort is I else bv(v) if self.sort is B else Flt.of(v).t

MAP = 'map'

class Pre(Havoc):
    """v0 ++ the first t(n) items the loop runs over"""
    def __init__(self, L, loc, v0):
        Havoc.__init__(self, L, loc, v0, I)
        self.src = L.src
        self.L = L
    def at(self, L, n):
        t = self.term(L, n)
        return self.v0.plus(LRope([GS(self.src.gen, self.src.off, mkint(t))]))
    def tm(self, v):
        return z3.simplify(iv(v.length()) - iv(self.v0.length()))

class MapHavoc(object):
    """a dict over an unknown base from which a loop only removes entries"""
    sort = MAP
    def __init__(self, L, loc, v0):
        self.v0 = v0
        self.name = eng().uid('hm')
        self.cands = None
    def hc(self, L, n):
        st = tuple(L.outer) + (n,)
        a = self.v0.base.has.sort()
        return (fun(self.name + 'has', *([I] * len(st) + [a]))(*st), fun(self.name + 'card', *([I] * len(st) + [I]))(*st))
    term = hc
    def at(self, L, n):
        h, c = self.hc(L, n)
        b = self.v0.base
        return DRep((), (), SymMap(h, b.get, b.vals, b.keyof, None, b.mkval, c if b.card is not None else None, b.promote))
    def tm(self, v):
        """(has, card) of the contents v"""
        if not isinstance(v, DRep) or v.base is None or any(True for k, x in v.entries):
            raise Unsupported('a loop adds entries to an unknown dict')
        h = v.base.has
        import models
        E = eng()
        for k in v.dead:
            h = z3.Store(h, models.key_term(E, k), z3.BoolVal(False))
        c = models.dict_card(E.interp, v) if v.base.card is not None else z3.IntVal(0)
        return (h, c)

OBJ = 'obj'

class Win(object):
    """in the form of an ObjS: the list of what the last turns appended, one item a turn"""
    def __init__(self, ref, k): self.ref = ref; self.k = k

class ObjS(object):
    """a local that holds an object made in an earlier turn, which nothing else refers to.

    The form of the object (what it was after the first turn that made one) stays, but for lists that grow by
    one item a turn. live(n): the local holds such an object; else its value is not known.  len_k(n): the
    length of list k, whose items were appended by the last len_k(n) turns."""
    sort = OBJ
    def __init__(self, L, loc, v0, post):
        self.v0 = v0; self.loc = loc; self.L = L
        self.name = eng().uid('ho')
        self.cands = None
        self.wins = []
        self.heap = post[1]
        self.seen = set()
        self.form = self.form_of(post[0])
        self.gens = [Gen(lambda *a, k=k: L.item((OBJ, loc, k), a[-1], a[:-1]), tuple(L.outer)) for k in range(len(self.wins))]
        for k, g in enumerate(self.gens):
            if not g.params: self.gens[k] = Gen(lambda i, k=k: L.item((OBJ, loc, k), i, ()), ())
        self.cur = None
        self.head = None
    def form_of(self, v):
        if isinstance(v, Ref) and v.id >= self.L.id0:
            if v.id in self.seen or v.frozen: raise Unsupported('an object made in a loop is shared')
            self.seen.add(v.id)
            c = self.heap[v.id]
            if v.kind == 'list' and isinstance(c, LRope) and v.cls is self.L.I.LIST:
                if c.concrete() == (): return ('new', v, ())
                self.wins.append(v)
                return ('new', v, Win(v, len(self.wins) - 1))
            if v.kind == 'inst': return ('new', v, tuple((k, self.form_of(x)) for k, x in sorted(c.items())))
            if v.kind == 'dict' and isinstance(c, DRep) and c.base is None:
                return ('new', v, tuple((k, self.form_of(x)) for k, x in c.entries))
            raise Unsupported('an object made in a loop lives on')
        if isinstance(v, Poison): raise Unsupported('an object made in a loop lives on')
        return ('same', v)
    def term(self, L, n):
        st = tuple(L.outer) + (n,)
        return tuple([fun(self.name + 'live', *([I] * len(st) + [B]))(*st)] +
                     [fun(self.name + 'len%d' % k, *([I] * len(st) + [I]))(*st) for k in range(len(self.wins))])
    def at(self, L, n):
        E = eng()
        t = self.term(L, n)
        if not E.decide(t[0]):
            if self.v0 is not MISSING and E.provably(iv(n) == 0): return self.v0
            return Poison(self.loc)
        for x in t[1:]: E.assume(z3.And(x >= 0, x <= iv(n)))
        self.head = [None] * len(self.wins)
        def make(f):
            if f[0] == 'same': return f[1]
            ref, c = f[1], f[2]
            if isinstance(c, Win):
                ln = mkint(t[1 + c.k])
                self.head[c.k] = LRope([GS(self.gens[c.k], sub(mkint(n), ln), ln)])
                return E.alloc('list', ref.cls, self.head[c.k])
            if ref.kind == 'list': return E.new_list()
            items = tuple((k, make(x)) for k, x in c)
            return E.alloc(ref.kind, ref.cls, dict(items) if ref.kind == 'inst' else DRep(items))
        return make(self.form)
    def after(self, L, v1, n, vals, roots):
        """(live, lengths) after the turn, from the value v1 of the local"""
        E = eng()
        zero = (z3.BoolVal(False),) + tuple(z3.IntVal(0) for w in self.wins)
        ids = set()
        lens = [None] * len(self.wins)
        t = self.term(L, n)
        def match(f, v):
            if f[0] == 'same': return same_val(f[1], v) or isinstance(v, (SInt, SBool, int, bool)) and L.equal(f[1], v)
            if not isinstance(v, Ref) or v.id < L.id0 or v.frozen or v.id in ids or v.kind != f[1].kind or v.cls is not f[1].cls: return False
            ids.add(v.id)
            c, w = f[2], E.heap[v.id]
            if isinstance(c, Win):
                one = w.concrete()
                if one is not None and len(one) == 1:
                    lens[c.k] = z3.IntVal(1); vals[(OBJ, self.loc, c.k)] = one[0]
                    return True
                h = self.head[c.k] if self.head else None
                x = strip_prefix(w, h) if h is not None else None
                one = x.concrete() if x is not None else None
                if one is None or len(one) != 1: return False
                lens[c.k] = z3.simplify(t[1 + c.k] + 1); vals[(OBJ, self.loc, c.k)] = one[0]
                return True
            if f[1].kind == 'list': return isinstance(w, LRope) and w.concrete() == ()
            if f[1].kind == 'inst': it = sorted(w.items())
            elif w.base is not None: return False
            else: it = list(w.entries)
            if len(it) != len(c): return False
            return all(same_val(k1, k2) for (k1, a), (k2, b) in zip(c, it)) and all([match(x, y) for (k, x), (k2, y) in zip(c, it)])
        ok = match(self.form, v1)
        for k in range(len(self.wins)):
            x = vals.get((OBJ, self.loc, k))
            if isinstance(x, Ref): pass
        if not ok: return zero
        seen = set()
        def refers(v, depth=0):
            if isinstance(v, Ref):
                if v.id in ids: return True
                if v.id in seen: return False
                seen.add(v.id)
                return refers(E.heap.get(v.id), depth)
            if isinstance(v, dict): return any(refers(x) for x in v.values())
            if isinstance(v, (tuple, list)): return any(refers(x) for x in v)
            if isinstance(v, DRep): return any(refers(x) for kv in v.entries for x in kv)
            if isinstance(v, LogRep): return refers(v.log)
            if isinstance(v, BoundV): return refers(v.self_)
            if isinstance(v, LRope):
                for g in v.segs:
                    if isinstance(g, ES):
                        if refers(g.items): return True
                    elif isinstance(g, GS) and L.src is not None and g.gen.same(L.src.gen): continue
                    elif isinstance(g, (GS, FL)):
                        if any(h.same(g.gen) for h in self.gens): return True
                        if g.gen.key in self.ints: continue
                        try:
                            x = g.gen(SInt(E.fresh('any', I)))
                        except Unsupported:
                            return True
                        if not (sort_of(x) is not None or is_bytes(x) or isinstance(x, (SName, SVal))): return True
                        self.ints.add(g.gen.key)
                return False
            return not (v is None or sort_of(v) is not None or is_bytes(v) or isinstance(v, (SName, SVal, SUni, OStr, SRef, str, ClassV, FuncV, Builtin, ModuleV, LogRep)))
        if any(refers(r) for r in roots): return zero
        return (z3.BoolVal(True),) + tuple(x if x is not None else z3.IntVal(0) for x in lens)
    ints = set()
    def tm(self, v):
        if v is self.v0:
            return (z3.BoolVal(False),) + tuple(z3.IntVal(0) for w in self.wins)
        return self.cur

def same_term(s, a, b):
    if s.sort is MAP:
        return z3.And(a[0] == b[0], a[1] == b[1])
    if s.sort is OBJ:
        return z3.And([x == y for x, y in zip(a, b)])
    return a == b

import os, sys
import time
DBG = bool(os.environ.get('LOOPDBG'))
def sort_of(v):
    if isinstance(v, (bool, SBool)): return B
    if isinstance(v, (int, SInt)): return I
    if isinstance(v, Flt): return values.R
    return None

def strip_prefix(v, p):
    """X with v == p ++ X, syntactically, or None"""
    E = eng()
    if is_bytes(p) and is_bytes(v):
        a, b = list(segs_of(v)), list(segs_of(p))
        mk = norm
    elif isinstance(p, LRope) and isinstance(v, LRope):
        a, b = list(v.segs), list(p.segs)
        mk = LRope
    else:
        return None
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if seg_eq(x, y):
            a.pop(0); b.pop(0); continue
        if len(b) > 1 and not isinstance(x, (CB, ES)):
            return None
        if isinstance(x, CB) and isinstance(y, CB) and x.b.startswith(y.b):
            a[0] = CB(x.b[len(y.b):]); b.pop(0); continue
        if isinstance(x, ES) and isinstance(y, ES) and len(x.items) >= len(y.items) and \
                all(same_val(p_, q_) for p_, q_ in zip(x.items, y.items)):
            a[0] = ES(x.items[len(y.items):]); b.pop(0); continue
        if isinstance(x, AT) and isinstance(y, AT) and x.atom.key() == y.atom.key() and same_val(x.off, y.off) and len(b) == 1:
            d = sub(x.ln, y.ln)
            if E.provably(iv(d) >= 0):
                a[0] = AT(x.atom, add(x.off, y.ln), d); b.pop(0); continue
        if isinstance(x, RS) and isinstance(y, RS) and x.t.eq(y.t) and len(b) == 1:
            d = sub(x.n, y.n)
            if E.provably(iv(d) >= 0):
                a[0] = RS(x.t, d); b.pop(0); continue
        if isinstance(x, GS) and isinstance(y, GS) and x.gen.same(y.gen) and same_val(x.off, y.off) and len(b) == 1:
            d = sub(x.ln, y.ln)
            if E.provably(iv(d) >= 0):
                a[0] = GS(x.gen, add(x.off, y.ln), d); b.pop(0); continue
        return None
    return mk(a)

def seg_eq(x, y):
    if x is y: return True
    if type(x) is not type(y): return False
    if isinstance(x, CB): return x.b == y.b
    if isinstance(x, BT): return x.t.eq(y.t)
    if isinstance(x, AT): return x.atom.key() == y.atom.key() and same_val(x.off, y.off) and same_val(x.ln, y.ln)
    if isinstance(x, RS): return x.t.eq(y.t) and same_val(x.n, y.n)
    if isinstance(x, (FS, FL)): return x.gen.same(y.gen) and same_val(x.n, y.n)
    if isinstance(x, GS): return x.gen.same(y.gen) and same_val(x.off, y.off) and same_val(x.ln, y.ln)
    if isinstance(x, ES): return len(x.items) == len(y.items) and all(same_val(p, q) for p, q in zip(x.items, y.items))
    return False

def same_val(a, b):
    """syntactically the same value"""
    if a is b: return True
    if a is None or b is None: return False
    if isinstance(a, (SInt, SBool, int, bool)) and isinstance(b, (SInt, SBool, int, bool)):
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)): return False
        if isinstance(a, int) and isinstance(b, int): return a == b
        ta, tb = (bv(a), bv(b)) if isinstance(a, (bool, SBool)) else (iv(a), iv(b))
        return ta.eq(tb) or z3.is_true(z3.simplify(ta == tb))
    if isinstance(a, Flt) and isinstance(b, Flt):
        return a.t.eq(b.t)
    if type(a) is not type(b): return False
    if isinstance(a, (bytes, str)): return a == b
    if isinstance(a, tuple): return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (SVal, SName, OStr, SUni)): return a.t.eq(b.t)
    if isinstance(a, SRef): return a.schema is b.schema and all(x.eq(y) for x, y in zip(a.args, b.args))
    if isinstance(a, Ref): return a.id == b.id
    if isinstance(a, Rope): return len(a.segs) == len(b.segs) and all(seg_eq(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, LRope): return len(a.segs) == len(b.segs) and all(seg_eq(x, y) for x, y in zip(a.segs, b.segs))
    if isinstance(a, DRep):
        return (len(a.entries) == len(b.entries) and a.base is b.base and len(a.dead) == len(b.dead)
                and all(same_val(x, y) for x, y in zip(a.entries, b.entries))
                and all(same_val(x, y) for x, y in zip(a.dead, b.dead)))
    if isinstance(a, LogRep): return same_val(a.log, b.log)
    if isinstance(a, BoundV): return a.f is b.f and same_val(a.self_, b.self_)
    return False

MISSING = object()

class Loop(object):
    """the summary of one loop at one point of one path"""
    def __init__(self, I_, fr, N, turn, guard):
        self.I = I_
        self.E = I_.E
        self.fr = fr
        self.N = N                  # number of turns (a term), or None
        self.turn = turn            # turn(n): runs the body once; BreakX etc. pass through
        self.guard = guard          # guard(): truth of the test in the current state, or None
        self.outer = tuple(self.E.loopstack)
        self.depth = len(self.outer)
        self.turns0 = list(self.E.turns)
        self.scope = self.E.uid('L') + '.'
        self.id0 = self.E.next_id
        self.shapes = {}            # loc -> shape
        self.posts = {}             # local -> an object it held after a turn, with the heap of then
        self.cases = []
        self.src = None             # the segment the loop runs over
        self.abrupt = False
        self.end = None             # number of complete turns on this path, once known
        self.entry_locals = dict(fr.locals)
        self.entry_heap = dict(self.E.heap)

    # locations -------------------------------------------------------------------------------

    def entry(self, loc):
        if loc[0] == 'l':
            return self.entry_locals.get(loc[1], MISSING)
        c = self.entry_heap[loc[1]]
        if loc[0] == 'c':
            return c
        return c.get(loc[2], MISSING)

    def read(self, loc):
        if loc[0] == 'l':
            return self.fr.locals.get(loc[1], MISSING)
        c = self.E.heap[loc[1]]
        if loc[0] == 'c':
            return c
        return c.get(loc[2], MISSING)

    def write(self, loc, v):
        if loc[0] == 'l':
            if v is MISSING: self.fr.locals.pop(loc[1], None)
            else: self.fr.locals[loc[1]] = v
            return
        if loc[0] == 'c':
            self.E.heap[loc[1]] = v
        else:
            d = dict(self.E.heap[loc[1]])
            if v is MISSING: d.pop(loc[2], None)
            else: d[loc[2]] = v
            self.E.heap[loc[1]] = d
        for w in self.E.wstack:
            w.add(loc)

    def set_head(self, n, last=False):
        for loc, sh in self.shapes.items():
            self.write(loc, sh.at(self, n))

    def havocs(self):
        return [(l, s) for l, s in self.shapes.items() if isinstance(s, (Havoc, MapHavoc, ObjS))]

    def cand_facts(self, n):
        out = []
        for loc, s in self.havocs():
            for c in s.cands or ():
                out.append(c[1](s.term(self, n), n))
        return out

    post = False
    def counters(self):
        return [l for l, s in sorted(self.shapes.items(), key=lambda x: str(x[0])) if isinstance(s, (Lin, Havoc)) and not isinstance(s, Pre) and sort_of(s.v0) is I]
    def count(self, loc, n):
        """the value of a counter at the head of turn n, or after the turn"""
        if self.post: return iv(self.read(loc))
        if isinstance(n, z3.ExprRef) and z3.is_int_value(n) and n.as_long() == 0: return iv(self.entry(loc))
        return iv(self.shapes[loc].at(self, n))

    # running ---------------------------------------------------------------------------------

    def make_cands(self, s):
        if s.cands is not None:
            return
        s.cands = []
        E = self.E
        if s.sort is OBJ:
            # an object that has as many items as a counter says, if that is not 0
            for loc in self.counters():
                s.cands.append(('count %s' % (loc,), lambda t, n, loc=loc: z3.Implies(self.count(loc, n) > 0, z3.And([t[0]] + [x == self.count(loc, n) for x in t[1:]]))))
            if len(s.wins) > 0: s.cands.append(('some', lambda t, n: z3.Implies(t[0], z3.And([x > 0 for x in t[1:]]))))
            zero = (z3.BoolVal(False),) + tuple(z3.IntVal(0) for w in s.wins)
            s.cands = [c for c in s.cands if E.provably(c[1](zero, z3.IntVal(0)))]
            return
        v0 = s.tm(s.v0)
        if s.sort is I:
            s.cands.append(('ge0', lambda t, n: t >= 0))
            s.cands.append(('ge', lambda t, n: t >= v0))
            s.cands.append(('grow', lambda t, n: t <= v0 + n))
            for K in self.numerals():
                s.cands.append(('min%d' % K, lambda t, n, K=K: t == z3.If(v0 + n < K, v0 + n, z3.IntVal(K))))
                s.cands.append(('below%d' % K, lambda t, n, K=K: t <= K))
            s.cands.append(('le', lambda t, n: t <= v0))
            if not isinstance(s, Pre):
                for loc in self.counters():
                    if self.shapes[loc] is not s and isinstance(self.shapes[loc], Havoc):
                        d0 = z3.simplify(v0 - iv(self.entry(loc)))
                        s.cands.append(('with %s' % (loc,), lambda t, n, loc=loc, d0=d0: t - self.count(loc, n) == d0))
            if isinstance(s, Pre):
                for loc in self.counters():
                    s.cands.append(('rest %s' % (loc,), lambda t, n, loc=loc: t + self.count(loc, n) == n))
        if s.sort is B:
            s.cands.append(('kept', lambda t, n: t == v0))
        for f in E.folds:
            for k, (sort, fn) in enumerate(getattr(f, 'states', {}).items() if False else getattr(f, 'terms', lambda: [])()):
                if sort is s.sort:
                    s.cands.append(('fold%d' % k, lambda t, n, fn=fn: t == fn(n)))
                    if sort is I:
                        off = v0
                        s.cands.append(('foldoff%d' % k, lambda t, n, fn=fn, off=off: t == off + fn(n) - fn(z3.IntVal(0))))
        for name, inv in E.invs:
            if inv(s.sort, v0, z3.IntVal(0)) is not None:
                s.cands.append((name, lambda t, n, inv=inv: inv(s.sort, t, n)))
        if s.sort is I:
            # a counter that follows the size of a dict
            for loc, m in self.havocs():
                if isinstance(m, MapHavoc) and m.v0.base.card is not None:
                    c0 = m.tm(m.v0)[1]
                    E.fact(same_term(m, m.hc(self, z3.IntVal(0)), m.tm(m.v0)))
                    s.cands.append(('size', lambda t, n, m=m, c0=c0: t - v0 == m.hc(self, n)[1] - c0))
        # base cases
        good = []
        for c in s.cands:
            try:
                g = z3.simplify(bv(c[1](v0, z3.IntVal(0))))
            except z3.Z3Exception:
                continue
            if z3.is_true(g) or E.provably(g):
                good.append(c)
        s.cands = good

    def one_pass(self):
        """run the body at a fresh turn; True if all shapes are confirmed"""
        E, I_ = self.E, self.I
        self.cases = []
        self.abrupt = False
        self.inexact = False
        res = {'stable': True}
        n = z3.Const(self.scope + 'n', I)
        self.n = n
        found = {}                      # loc -> list of classification on this pass
        poison = set()
        def run():
            saved = dict(self.fr.locals)
            E.loopstack = list(self.outer) + [n]
            E.turns = self.turns0 + [n]
            w = set()
            E.wstack = E.wstack + [w]
            xs = I_.exc_stack
            d0, p0 = len(E.dectrace), len(E.pc)
            try:
                E.assume(n >= 0)
                if self.N is not None:
                    E.assume(n < self.N)
                for loc, s in self.havocs():
                    E.fact(same_term(s, s.term(self, z3.IntVal(0)), s.tm(s.v0)))
                cf = self.cand_facts(n)
                if cf and not E.prefix and E.query(None) == 'sat':
                    for f in cf: E.assume(f)
                    if E.query(None) == 'unsat': raise Unsupported('the head of a loop is contradictory')
                for f in cf:
                    E.assume(f)
                p0 = len(E.pc)
                d0 = len(E.dectrace)
                for s in self.shapes.values():
                    if isinstance(s, ObjS): s.cur = s.head = None
                self.set_head(n)
                E.loop_index(n)
                heads = {loc: sh.at(self, n) if not isinstance(sh, ObjS) else self.read(loc) for loc, sh in self.shapes.items()}
                w.clear()
                if not any(isinstance(s, ObjS) for s in self.shapes.values()):
                    p0 = len(E.pc)
                    d0 = len(E.dectrace)
                if self.guard is not None:
                    if not self.guard():
                        return
                try:
                    self.turn(n)
                except I_.ContinueX:
                    pass
                except (I_.BreakX, I_.ReturnX, PyExc, OuterBreak):
                    self.abrupt = True
                    return
                locs = set(l for l in w if l[1] < self.id0)
                for k, v in self.fr.locals.items():
                    if k not in saved or not same_val(saved[k], v):
                        locs.add(('l', k))
                for k in saved:
                    if k not in self.fr.locals:
                        locs.add(('l', k))
                vals = {}
                roots = None
                for loc, sh in self.shapes.items():
                    if isinstance(sh, ObjS):
                        roots = [E.heap[l[1]] for l in locs if l[0] != 'l'] + [v for k, v in self.fr.locals.items() if ('l', k) != loc and ('l', k) in self.shapes and not isinstance(self.shapes[('l', k)], PoisonS)]
                        sh.cur = sh.after(self, self.read(loc), n, vals, roots)
                for loc in set(list(locs) + list(self.shapes)):
                    v1 = self.read(loc)
                    sh = self.shapes.get(loc)
                    hv = heads[loc] if loc in heads else self.entry(loc)
                    k = self.classify(loc, sh, hv, v1, n, vals)
                    found.setdefault(loc, []).append(k)
                nxt = []
                for loc, s in self.havocs():
                    v1 = self.read(loc)
                    if v1 is MISSING or (s.sort is not MAP and s.sort is not OBJ and not isinstance(s, Pre) and sort_of(v1) is not s.sort):
                        raise Unsupported('a loop variable changes its type')
                    t1 = s.tm(v1)
                    nxt.append((s, t1))
                    E.fact(same_term(s, s.term(self, n + 1), t1))
                for s, t1 in nxt:
                    keep = []
                    for c in s.cands:
                        self.post = True
                        try: g = c[1](t1, n + 1)
                        finally: self.post = False
                        if E.provably(g):
                            keep.append(c)
                        else:
                            if DBG: print('drop', s.name, c[0], file=sys.stderr)
                            res['stable'] = False
                    s.cands = keep
                D = list(E.dectrace[d0:])
                ds = set(t.get_id() for t in D)
                F = [t for t in E.pc[p0:] if t.get_id() not in ds]
                self.cases.append(Case(D, F, vals, dict(E.heap)))
            except PoisonRead as p:
                poison.add(p.loc)
                return
            finally:
                I_.exc_stack = xs
                self.fr.locals.clear()
                self.fr.locals.update(saved)
        ls, ws, ts = E.loopstack, E.wstack, E.turns
        try:
            E.subexplore(run, scope=self.scope)
        finally:
            E.loopstack, E.wstack, E.turns = ls, ws, ts
        # refine
        changed = False
        for p in poison:
            if isinstance(self.entry(p) if p[0] == 'l' or p[1] in self.entry_heap else None, Poison):
                raise PoisonRead(p)         # known only once an enclosing loop is
            if p not in self.shapes:
                raise Unsupported('value unknown after a loop is used: %r' % (p,))
            if isinstance(self.shapes[p], PoisonS):
                changed = True
                self.shapes[p] = self.pick(p, self.hints.get(p, []))
            else:
                raise Unsupported('value unknown after a loop is used: %r' % (p,))
        for loc, ks in sorted(found.items(), key=lambda x: 0 if any(k and k[0] == 'map' for k in x[1]) else 1):
            sh = self.shapes.get(loc)
            self.hints.setdefault(loc, []).extend(k for k in ks if k is not None)
            if all(k is None for k in ks):
                continue
            if sh is None:
                changed = True
                if loc[0] == 'l':
                    self.shapes[loc] = PoisonS(loc)
                else:
                    try:
                        self.shapes[loc] = self.pick(loc, ks)
                    except Unsupported:
                        if loc[0] != 'f' or not any(k and k[0] == 'bad' for k in ks): raise
                        self.shapes[loc] = PoisonS(loc)
            elif not isinstance(sh, (PoisonS, Havoc, MapHavoc, ObjS)) or isinstance(sh, Pre):
                changed = True
                self.shapes[loc] = self.weaken(loc, sh, ks)
        if changed:
            return False
        return True if res['stable'] else None      # None: only fewer facts at the head

    def classify(self, loc, sh, hv, v1, n, vals):
        """None if v1 is what the shape says for turn n+1; else what it might be"""
        E = self.E
        if isinstance(v1, Ref) and v1.id >= self.id0 and loc[0] == 'l' and loc not in self.posts:
            self.posts[loc] = (v1, dict(E.heap))
        if isinstance(sh, PoisonS):
            v0 = self.entry(loc)
            if v1 is MISSING or isinstance(v1, Poison) or v0 is MISSING and not isinstance(v1, Ref):
                vals[loc] = v1
                return None
            vals[loc] = v1
            # a hint for later, in case the value turns out to be read
            s = sort_of(v0)
            if s is not None and sort_of(v1) is s:
                self.hints.setdefault(loc, []).append(('havoc',))
            return None
        if isinstance(sh, Pre):
            x = strip_prefix(v1, hv) if isinstance(v1, LRope) else None
            c = x.concrete() if x is not None else None
            if x is not None and (c is None or len(c) > 1):
                t = sh.term(self, n)
                return None if E.list_same(x, LRope([GS(sh.src.gen, add(sh.src.off, mkint(t)), x.length())]))[0] else ('nopre',)
            if c is None: return ('nopre',)
            if len(c) == 1:
                t = sh.term(self, n)
                w = sh.src.at(mkint(t))
                if not self.equal(c[0], w): return ('nopre',)
            return None
        if isinstance(sh, (Havoc, MapHavoc, ObjS)):
            return None
        if v1 is MISSING:
            raise Unsupported('a field is deleted in a loop')
        if sh is None:
            if hv is not MISSING and same_val(hv, v1):
                return None
            if hv is MISSING:
                if loc[0] == 'l': return ('unset',)
                raise Unsupported('field %r is created in a loop' % (loc,))
            if sort_of(hv) is not None and sort_of(hv) is sort_of(v1):
                if sort_of(hv) is B:
                    if E.provably(bv(hv) == bv(v1)): return None
                    return ('havoc',)
                if sort_of(hv) is values.R or isinstance(v1, Flt):
                    d = v1 - hv
                    if d.const() is not None: return ('lin', d)
                    return ('havoc',)
                d = z3.simplify(iv(v1) - iv(hv))
                if z3.is_int_value(d):
                    return None if d.as_long() == 0 else ('lin', d.as_long())
                if E.provably(d == 0): return None
                if not self.mentions_turn(d): return ('lin', SInt(d))
                return ('havoc',)
            if isinstance(hv, DRep) and isinstance(v1, DRep) and hv.base is not None and v1.base is not None:
                return ('map',)
            x = strip_prefix(v1, hv)
            if x is not None:
                return ('app',)
            p = self.popped(v1, hv)
            if p is not None:
                return ('pop', p)
            if isinstance(v1, LRope) and v1.concrete() == (): return ('once', v1)
            return ('bad', E.show(hv), E.show(v1))
        if isinstance(sh, Once):
            return None if same_val(sh.c, v1) else ('bad', E.show(hv), E.show(v1))
        if isinstance(sh, Lin):
            if sort_of(v1) is None:
                return ('bad', '', E.show(v1))
            w = sh.at(self, n + 1)
            if isinstance(w, Flt) or isinstance(v1, Flt):
                return None if E.provably(Flt.of(w).t == Flt.of(v1).t) else ('havoc',)
            return None if E.provably(iv(w) == iv(v1)) else ('havoc',)
        if isinstance(sh, App):
            x = strip_prefix(v1, hv)
            if x is None:
                return ('bad', E.show(hv), E.show(v1))
            if sh.mode == 'byte':
                ss = segs_of(x)
                ok = len(ss) == 1 and str_len(x) == 1 and z3.simplify(ss[0].at(0)).eq(sh.byte)
                if not ok:
                    sh.mode = None; sh.nobyte = True
                    return ('redo',)
            elif sh.text and not getattr(sh, 'nobyte', False) and sh.mode is None:
                ss = segs_of(x)
                if len(ss) == 1 and isinstance(str_len(x), int) and str_len(x) == 1 and not self.mentions_turn(z3.simplify(ss[0].at(0))):
                    sh.mode = 'byte'; sh.byte = z3.simplify(ss[0].at(0))
                    return ('redo',)
                sh.nobyte = True
            if not sh.text:
                one = x.concrete() is not None and len(x.concrete()) == 1
                if x.concrete() == () and self.src is not None and not getattr(self, 'nopre', False):
                    return ('pre',)
                if sh.mode == 'one' and not one:
                    sh.mode = None; sh.notone = True
                    if self.src is not None and not getattr(self, 'nopre', False):
                        return ('pre',)
                    return ('redo',)
                if sh.mode is None and one and not getattr(sh, 'notone', False):
                    sh.mode = 'one'
                    return ('redo',)
                if not one: sh.notone = True
            vals[loc] = x
            return None
        if isinstance(sh, Pop):
            p = self.popped(v1, hv)
            return None if p is not None and sh.k in p else ('bad', E.show(hv), E.show(v1))
        return ('bad', '', '')

    def popped(self, v1, hv):
        """the k with v1 == hv[k:], and the -k with v1 == hv[:-k]"""
        E = self.E
        if is_bytes(hv) and is_bytes(v1): la, lb = str_len(hv), str_len(v1)
        elif isinstance(hv, LRope) and isinstance(v1, LRope): la, lb = hv.length(), v1.length()
        else: return None
        d = z3.simplify(iv(la) - iv(lb))
        if not z3.is_int_value(d):
            if not E.provably(d == 1): return None
            d = z3.IntVal(1)
        if not (0 < d.as_long() <= 64):
            return None
        k = d.as_long()
        if not E.provably(iv(la) >= k): return None
        out = []
        for front in (True, False):
            if is_bytes(hv): r = slice_str(hv, k, None) if front else slice_str(hv, 0, sub(la, k))
            else: r = hv.slice(k, la) if front else hv.slice(0, sub(la, k))
            if same_val(r, v1) or (E.rope_same(r, v1) if is_bytes(hv) else E.list_same(r, v1))[0]:
                out.append(k if front else -k)
        return frozenset(out) or None

    def equal(self, a, b):
        try:
            if same_val(a, b): return True
            r = self.I.py_eq(a, b)
        except Unsupported:
            return False
        return r is True or isinstance(r, SBool) and self.E.provably(r.t)

    def numerals(self):
        """integer constants the decisions of the body compare with"""
        seen, out = set(), set()
        todo = [t for c in self.cases for t in c.D]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_int_value(x):
                k = x.as_long()
                if 0 <= k < 10 ** 6: out.update((k, k + 1, k - 1))
            todo.extend(x.children())
        return sorted(out)[:24]

    def mentions_turn(self, t):
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if x.eq(self.n): return True
            todo.extend(x.children())
        return False

    def pick(self, loc, ks):
        v0 = self.entry(loc)
        kinds = [k for k in ks if k is not None]
        names = set(k[0] for k in kinds)
        if DBG: print('pick', loc, ks, list(self.posts), file=sys.stderr)
        if loc in self.posts and sort_of(v0) is None:
            s = ObjS(self, loc, v0, self.posts[loc])
            self.make_cands(s)
            return s
        if v0 is MISSING:
            raise Unsupported('local %r may be unset' % (loc,))
        if names and names <= {'app'}:
            return App(self, loc, v0)
        if names and names <= {'lin'} and all(same_val(k[1], kinds[0][1]) for k in kinds):
            return Lin(v0, kinds[0][1])
        if names and names <= {'map'}:
            s = MapHavoc(self, loc, v0)
            s.tm(v0)
            self.make_cands(s)
            return s
        if names and names <= {'pop'}:
            both = frozenset.intersection(*[k[1] for k in kinds])
            if both: return Pop(v0, max(both))
        if names and names <= {'once'} and len(kinds) == len([k for k in ks]) and all(same_val(k[1], kinds[0][1]) for k in kinds):
            return Once(v0, kinds[0][1])
        if names and names <= {'lin', 'havoc'} or (sort_of(v0) is not None and 'bad' not in names):
            s = Havoc(self, loc, v0, sort_of(v0))
            self.make_cands(s)
            return s
        raise Unsupported('a loop changes %s in a way that is not understood: %r' % (self.name(loc), [k for k in kinds if k[0] == 'bad'][:1] or names))

    def name(self, loc):
        if loc[0] == 'l': return 'local ' + loc[1]
        if loc[0] == 'f': return 'field ' + loc[2]
        return 'an object'

    def weaken(self, loc, sh, ks):
        if all(k is None or k[0] == 'redo' for k in ks):
            return sh
        v0 = self.entry(loc)
        if DBG: print('weaken', loc, type(sh), ks, file=sys.stderr)
        if any(k and k[0] == 'pre' for k in ks):
            s = Pre(self, loc, v0)
            self.make_cands(s)
            return s
        if isinstance(sh, Pre):
            self.nopre = True
            s = App(self, loc, v0); s.notone = True
            return s
        if isinstance(sh, (Lin,)) and sort_of(v0) is not None and all(k is None or k[0] != 'bad' for k in ks):
            s = Havoc(self, loc, v0, values.R if any(False for k in ks) else sort_of(v0))
            self.make_cands(s)
            return s
        raise Unsupported('a loop changes %s in a way that is not understood: %r' % (self.name(loc), [k for k in ks if k][:1]))

    def analyse(self):
        self.hints = {}
        E = self.E
        k = m = 0
        while k < 14 and m < 80:
            r = self.one_pass()
            if r is True:
                return
            m += 1
            if r is not None: k += 1
        raise Unsupported('no invariant found for a loop')

    # using the summary -----------------------------------------------------------------------

    def select(self, i, outer):
        """choose the case of complete turn i; adds its facts"""
        E = self.E
        S = self.subst(i, outer)
        cs = self.cases
        if not cs:
            raise PathEnd()
        for f in self.cand_facts_at(S):
            E.fact(f)
        for k, c in enumerate(cs):
            D = z3.And([S.term(d) for d in c.D]) if c.D else z3.BoolVal(True)
            if k == len(cs) - 1:
                E.assume(D)
                for f in c.F: E.fact(S.term(f))
                if len(cs) > 1 and E.query(None) == 'unsat':
                    raise PathEnd()
                return c, S
            if E.decide(D):
                for f in c.F: E.fact(S.term(f))
                return c, S

    def cand_facts_at(self, S):
        return [S.term(f) for f in self.cand_facts(self.n)]

    def subst(self, i, outer):
        i = iv(i)
        pairs = [(self.n, i)] + [(a, iv(b)) for a, b in zip(self.outer, outer)]
        L = self
        def materialize(ref, S):
            E = L.E
            if ref.id < L.id0:
                return ref
            key = (L.scope, i.get_id(), tuple(iv(b).get_id() for b in outer), ref.id)
            m = E.memo.get(key)
            if m is not None:
                return m[0]
            r = Ref(E.next_id, ref.kind, ref.cls)
            E.next_id += 1
            E.memo[key] = (r, i)
            c = L.cur_heap[ref.id]
            if ref.kind == 'inst':
                E.heap[r.id] = {}
                E.heap[r.id] = dict((k, S.val(v)) for k, v in c.items())
            elif isinstance(c, tuple):
                E.heap[r.id] = tuple(S.val(v) for v in c)
            else:
                E.heap[r.id] = None
                E.heap[r.id] = c.subst(S)
            r.frozen = True
            return r
        return Subst(pairs, materialize=materialize)

    cur_heap = None

    def item(self, loc, i, outer):
        c, S = self.select(i, outer)
        self.cur_heap = c.heap
        return S.val(c.vals[loc])

    def fact_at(self, i):
        """formula: what is known of complete turn i"""
        i = iv(i)
        S = Subst([(self.n, i)])
        alts = []
        for c in self.cases:
            alts.append(z3.And([S.term(t) for t in c.D + c.F]) if c.D + c.F else z3.BoolVal(True))
        f = z3.Or(alts) if alts else z3.BoolVal(False)
        return z3.And([f] + self.cand_facts_at(S))

    def unfold(self, i):
        """called for indices of interest on the path"""
        if self.end is None:
            return
        i = iv(i)
        key = ('unfold', self.scope, i.get_id())
        if key in self.E.memo:
            return
        self.E.memo[key] = i
        self.E.fact(z3.Implies(z3.And(i >= 0, i < self.end), self.fact_at(i)))

    def pivots(self):
        """the turns at which the decisions of the body change, where these do not depend on the turn"""
        out = {}
        zero = z3.IntVal(0)
        seen = set()
        def atoms(t):
            if t.get_id() in seen: return
            seen.add(t.get_id())
            if z3.is_and(t) or z3.is_or(t) or z3.is_not(t):
                for c in t.children(): atoms(c)
            elif t.num_args() == 2 and z3.is_int(t.arg(0)) and (z3.is_eq(t) or z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t)):
                e = t.arg(0) - t.arg(1)
                e0 = z3.simplify(z3.substitute(e, (self.n, zero)))
                d = z3.simplify(e - e0)
                if d.eq(self.n): r = z3.simplify(-e0)
                elif d.eq(z3.simplify(-self.n)): r = e0
                else: return
                if not z3.is_int_value(r): out.setdefault(r.get_id(), r)
        for c in self.cases:
            for t in c.D: atoms(t)
        return list(out.values())[:8]

    def run(self, orelse, item_bind=None):
        E, I_ = self.E, self.I
        # a path that came here by the same decisions found the loop in the same state
        key = (tuple(E.decisions), self.scope, self.id0, len(E.pc), len(E.dectrace))
        old = E.loopcache.get(key)
        if old is not None:
            old.fr, old.turn, old.guard, old.src = self.fr, self.turn, self.guard, self.src
            old.entry_locals, old.entry_heap, old.end = self.entry_locals, self.entry_heap, None
            return old.leave(orelse)
        self.analyse()
        E.loopcache[key] = self
        self.leave(orelse)

    def leave(self, orelse):
        E, I_ = self.E, self.I
        n = z3.Const(self.scope + 'end', I) if not self.outer else \
            fun(self.scope + 'end', *([I] * (self.depth + 1)))(*self.outer)
        if self.N is not None:
            nend = self.N
        else:
            nend = n
        ab = False
        if self.abrupt:
            ab = not E.decide(E.fresh('loop_completes', B))
        if not ab:
            self.end = nend
            E.assume(nend >= 0)
            for loc, s in self.havocs():
                E.fact(same_term(s, s.term(self, z3.IntVal(0)), s.tm(s.v0)))
            for f in self.cand_facts(nend):
                E.fact(f)
            E.folds.append(self)
            self.unfold(z3.simplify(nend - 1))
            for t in self.pivots():
                self.unfold(t)
            self.set_head(z3.simplify(nend))
            if not self.cases:
                # no turn can complete
                E.assume(nend == 0)
                if E.query(None) == 'unsat': raise PathEnd()
            self.finish_poison(nend)
            if self.guard is not None:
                if self.guard():
                    raise PathEnd()
            elif E.query(None) == 'unsat':
                raise PathEnd()
            orelse()
            return
        # the turn m ends the loop
        m = z3.Const(self.scope + 'm', I) if not self.outer else \
            fun(self.scope + 'm', *([I] * (self.depth + 1)))(*self.outer)
        E.assume(m >= 0)
        if self.N is not None:
            E.assume(m < self.N)
        if E.query(None) == 'unsat': raise PathEnd()
        self.end = m
        for loc, s in self.havocs():
            E.fact(same_term(s, s.term(self, z3.IntVal(0)), s.tm(s.v0)))
        for f in self.cand_facts(m):
            E.fact(f)
        E.folds.append(self)
        ts = E.turns
        E.turns = ts + [m]
        try:
            E.loop_index(m)
            self.unfold(z3.simplify(m - 1))
            if not self.cases:
                E.assume(m == 0)
                if E.query(None) == 'unsat': raise PathEnd()
            self.set_head(m)
            if self.guard is not None:
                if not self.guard():
                    raise PathEnd()
            self.turn(m)
        except I_.ContinueX:
            raise PathEnd()
        except I_.BreakX:
            return
        finally:
            E.turns = ts
        raise PathEnd()

    def finish_poison(self, nend):
        """locals that are only written in the body: the entry value if there was no turn,
        else the value of the last one"""
        E = self.E
        for loc, sh in list(self.shapes.items()):
            if not isinstance(sh, PoisonS):
                continue
            vals = [c.vals.get(loc, MISSING) for c in self.cases]
            v0 = self.entry(loc)
            def simple(v): return v is not MISSING and not isinstance(v, Poison) and (
                sort_of(v) is not None or isinstance(v, (SVal, SName, SRef, Rope, bytes)) or v is None)
            if v0 is MISSING and loc[0] == 'l':
                # name it; only a read makes it matter
                self.fr.locals[loc[1]] = Poison(loc)
                continue
            if not (simple(v0) and all(simple(v) for v in vals)):
                continue
            s = sort_of(v0)
            if s is not None and all(sort_of(v) is s for v in vals):
                h = Havoc(self, loc, v0, s)
                t = E.fresh('last', s)
                E.fact(z3.Implies(nend == 0, t == h.tm(v0)))
                i = z3.simplify(nend - 1)
                S = Subst([(self.n, i)])
                for c, v in zip(self.cases, vals):
                    D = z3.And([S.term(d) for d in c.D]) if c.D else z3.BoolVal(True)
                    E.fact(z3.Implies(z3.And(nend >= 1, D), t == h.tm(S.val(v))))
                self.write(loc, h.wrap(t))

# ---------------------------------------------------------------- entry points

def sym_for(I_, seq, bind, body, orelse, fr, live=None):
    segs = list(seq.segs)
    E = I_.E
    c0 = E.heap[live.id] if live is not None else None
    def chk():
        if live is not None and E.heap[live.id] is not c0 and not same_val(E.heap[live.id], c0):
            raise Unsupported('a list is changed while it is iterated over')
    at = 0
    try:
        for s in segs:
            if isinstance(s, ES):
                for x in s.items:
                    bind(x)
                    ts = E.turns
                    E.enter_turn(ts, at); at += 1
                    try:
                        body()
                    except I_.ContinueX:
                        pass
                    finally:
                        E.turns = ts
                    chk()
                continue
            if isinstance(s, GS):
                n = s.length()
                if isinstance(n, int) and n <= 16:
                    for j in range(n):
                        bind(s.at(j))
                        ts = E.turns
                        E.enter_turn(ts, at); at += 1
                        try: body()
                        except I_.ContinueX: pass
                        finally: E.turns = ts
                        chk()
                    continue
                def turn(i, s=s):
                    bind(s.at(SInt(i)))
                    body()
                    chk()
                N = iv(n)
            else:
                def turn(i, s=s):
                    x = s.gen(SInt(i))
                    def inner():
                        try: body()
                        except I_.BreakX: raise OuterBreak()
                    I_.for_loop(E.new_list(x), bind, inner, lambda: None, fr)
                    chk()
                N = iv(s.n)
            L = Loop(I_, fr, N, turn, None)
            if isinstance(s, GS): L.src = s
            done = []
            L.run(lambda: done.append(1))
            if not done:
                return          # left by break
    except (I_.BreakX, OuterBreak):
        return
    orelse()

def sym_while(I_, s, fr, count):
    def guard():
        return I_.truth(I_.eval(s.test, fr))
    def turn(n):
        I_.exec_block(s.body, fr)
    L = Loop(I_, fr, None, turn, guard)
    L.run(lambda: I_.exec_block(s.orelse, fr))
