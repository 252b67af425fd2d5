"""Strings and lists as ropes: explicit pieces and pieces given by a function of an index."""
import z3
from values import *
import values

def add(a, b):
    """int-like host or term addition; plain ints stay ints"""
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return mkint(iv(a) + iv(b))

def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return mkint(iv(a) - iv(b))

class Atom(object):
    """an unknown byte string: content F(args, i), length L(args)"""
    def __init__(self, fname, args, length=None):
        self.fname = fname
        self.args = tuple(args)
        self._len = length
        self.where = None         # a fact about every byte
    def key(self):
        return (self.fname,) + tuple(a.get_id() for a in self.args)
    def length(self):
        if self._len is not None:
            return self._len
        t = fun('len_' + self.fname, *([I] * (len(self.args) + 1)))(*self.args) if self.args else z3.Int('len_' + self.fname)
        eng().fact(t >= 0)
        return SInt(t)
    def at(self, i):
        f = fun('byte_' + self.fname, *([I] * (len(self.args) + 2)))
        t = f(*(self.args + (iv(i),)))
        E = eng()
        E.fact(z3.And(t >= 0, t <= 255))
        if self.where is not None and ('where', t.get_id()) not in E.memo:
            E.memo[('where', t.get_id())] = t
            n = self.length()
            c = self.where(self, i, n)
            E.fact(z3.Implies(z3.And(iv(i) >= 0, iv(i) < iv(n)), c))
        return t
    def same(self, o):
        return self.fname == o.fname and len(self.args) == len(o.args)
    def subst(self, S):
        a = Atom(self.fname, [S.term(a) for a in self.args], S.val(self._len) if self._len is not None else None)
        a.where = self.where
        return a

class CB(object):
    __slots__ = ('b',)
    def __init__(self, b): self.b = b
    def length(self): return len(self.b)
    def at(self, i): return z3.IntVal(self.b[i])
    def slice(self, a, b): return CB(self.b[a:b])
    def subst(self, S): return self
    def __repr__(self): return 'CB(%r)' % (self.b,)

class BT(object):
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def length(self): return 1
    def at(self, i): return self.t
    def slice(self, a, b): return self if b > a else CB(b'')
    def subst(self, S): return BT(S.term(self.t))
    def __repr__(self): return 'BT(%s)' % self.t

class AT(object):
    __slots__ = ('atom', 'off', 'ln')
    def __init__(self, atom, off, ln): self.atom = atom; self.off = off; self.ln = ln
    def length(self): return self.ln
    def at(self, i): return self.atom.at(add(self.off, i))
    def slice(self, a, b): return AT(self.atom, add(self.off, a), sub(b, a))
    def subst(self, S): return AT(self.atom.subst(S), S.val(self.off), S.val(self.ln))
    def __repr__(self): return 'AT(%s%s,%s,%s)' % (self.atom.fname, list(self.atom.args), self.off, self.ln)

class RS(object):
    """n times the same byte"""
    __slots__ = ('t', 'n')
    def __init__(self, t, n): self.t = t; self.n = n
    def length(self): return self.n
    def at(self, i): return self.t
    def slice(self, a, b): return RS(self.t, sub(b, a))
    def subst(self, S): return RS(S.term(self.t), S.val(self.n))
    def __repr__(self): return 'RS(%s,%s)' % (self.t, self.n)

class Gen(object):
    """a function of an index, with parameters that may be substituted"""
    count = 0
    def __init__(self, fn, params=(), post=None, key=None):
        self.fn = fn
        self.params = tuple(params)
        self.post = post          # substitution applied to the results (closures without params)
        if key is None:
            Gen.count += 1
            key = 'g%d' % Gen.count
        self.key = key
    def __call__(self, i):
        r = self.fn(*(self.params + (i,)))
        if self.post is not None:
            r = self.post.val(r)
        return r
    def subst(self, S):
        if self.params:
            return Gen(self.fn, [S.term(p) for p in self.params], self.post, self.key)
        return Gen(self.fn, (), S if self.post is None else self.post.then(S), self.key)
    def same(self, o):
        return self is o or (self.fn is o.fn and self.post is o.post and len(self.params) == len(o.params)
                             and all(a.eq(b) for a, b in zip(self.params, o.params)))

class FS(object):
    """concatenation over i < n of step(i), each a byte string"""
    __slots__ = ('gen', 'n')
    def __init__(self, gen, n): self.gen = gen; self.n = n
    def width(self):
        """the length of every piece, if it is the same number for all"""
        g = self.gen
        w = getattr(g, 'w', -1)
        if w == -1:
            E = eng()
            E.nofork += 1
            w = None
            try:
                n = str_len(g(SInt(E.fresh('piece', I))))
                if isinstance(n, int): w = n
            except (NoFork, Unsupported, PyExc, PathEnd, PoisonRead):
                pass
            finally:
                E.nofork -= 1
            g.w = w
        return w
    def length(self):
        w = self.width()
        if w is not None:
            if isinstance(self.n, int): return w * max(self.n, 0)
            t = iv(self.n)
            if eng().provably(t >= 0): return mkint(t * w)
            return mkint(z3.If(t <= 0, z3.IntVal(0), t * w))
        args = [p for p in self.gen.params] + [iv(self.n)]
        t = fun('lenfold_' + self.gen.key, *([I] * (len(args) + 1)))(*args)
        E = eng()
        E.fact(t >= 0)
        E.fact(z3.Implies(iv(self.n) <= 0, t == 0))
        return SInt(t)
    def at(self, i):
        w = self.width()
        if not w: raise Unsupported('index into a folded string')
        return index_str(self.gen(int_div(i, w)), int_mod(i, w))
    def slice(self, a, b):
        w = self.width()
        if w and eng().provably(iv(int_mod(a, w)) == 0) and eng().provably(iv(int_mod(b, w)) == 0):
            k = int_div(a, w)
            return FS(Gen(lambda i: self.gen(add(i, k))), sub(int_div(b, w), k))
        raise Unsupported('slice of a folded string')
    def subst(self, S): return FS(self.gen.subst(S), S.val(self.n))
    def __repr__(self): return 'FS(%s,%s,%s)' % (self.gen.key, list(self.gen.params), self.n)

class Rope(object):
    """a byte string that is not fully known"""
    __slots__ = ('segs',)
    def __init__(self, segs):
        self.segs = tuple(segs)
    def length(self):
        n = 0
        for s in self.segs:
            n = add(n, s.length())
        return n
    def subst(self, S): return norm([s.subst(S) for s in self.segs])
    def __repr__(self): return 'Rope%r' % (list(self.segs),)
    # host sugar for contracts
    def __add__(self, o): return cat(self, o)
    def __radd__(self, o): return cat(o, self)
    def __getitem__(self, k):
        if isinstance(k, slice):
            return slice_str(self, k.start, k.stop)
        return index_str(self, k)
    __hash__ = None
    def __eq__(self, o): return eng().eq(self, o)
    def __ne__(self, o): return mkbool(z3.Not(bv(eng().eq(self, o))))

def norm(segs):
    out = []
    for s in segs:
        if isinstance(s, BT):
            t = s.t if isinstance(s.t, z3.ExprRef) and z3.is_int_value(s.t) else z3.simplify(s.t)
            if z3.is_int_value(t) and 0 <= t.as_long() < 256:
                s = CB(bytes([t.as_long()]))
        elif isinstance(s, RS):
            if isinstance(s.n, int):
                t = z3.simplify(s.t)
                if z3.is_int_value(t):
                    s = CB(bytes([t.as_long()]) * max(s.n, 0))
                elif s.n <= 64:
                    out.extend([BT(t)] * s.n)
                    continue
        if isinstance(s, CB):
            if not s.b:
                continue
            if out and isinstance(out[-1], CB):
                out[-1] = CB(out[-1].b + s.b)
                continue
        elif isinstance(s, AT):
            if isinstance(s.ln, int) and s.ln <= 0:
                continue
            if out and isinstance(out[-1], AT) and out[-1].atom.key() == s.atom.key():
                p = out[-1]
                e = z3.simplify(iv(add(p.off, p.ln)) - iv(s.off))
                if z3.is_int_value(e) and e.as_long() == 0:
                    out[-1] = AT(p.atom, p.off, add(p.ln, s.ln))
                    continue
        elif isinstance(s, FS):
            if isinstance(s.n, int) and s.n <= 0:
                continue
        out.append(s)
    if not out:
        return b''
    if len(out) == 1 and isinstance(out[0], CB):
        return out[0].b
    return Rope(out)

def segs_of(v):
    if isinstance(v, bytes):
        return (CB(v),) if v else ()
    if isinstance(v, Rope):
        return v.segs
    raise Unsupported('not a byte string: %r' % (v,))

def is_bytes(v):
    return isinstance(v, (bytes, Rope))

def cat(*vs):
    segs = []
    for v in vs:
        segs.extend(segs_of(v))
    return norm(segs)

def str_len(v):
    if isinstance(v, (bytes, str)):
        return len(v)
    return v.length()

def index_str(v, i):
    """the byte at i as a term; i is in range already"""
    pos = 0
    segs = segs_of(v)
    for k, s in enumerate(segs):
        n = s.length()
        end = add(pos, n)
        if k == len(segs) - 1 or (i < end):
            off = sub(i, pos)
            if isinstance(s, CB) and not isinstance(off, int):
                t = z3.IntVal(s.b[-1])
                for j in range(len(s.b) - 1):
                    t = z3.If(iv(off) == j, z3.IntVal(s.b[j]), t)
                return t
            return s.at(off)
        pos = end
    raise Unsupported('index out of range in index_str')

def clamp(n, a, dflt):
    """python slice bound normalisation; decides"""
    if a is None:
        return dflt
    if isinstance(a, SBool):
        a = mkint(iv(a))
    if a < 0:
        a = add(a, n)
        if a < 0:
            return 0
        return a
    if isinstance(a, int) and a == 0:
        return 0
    if a > n:
        return n
    return a

def slice_str(v, a, b):
    if isinstance(v, (bytes, str)) and all(x is None or isinstance(x, int) for x in (a, b)):
        return v[a:b]
    if a is None and b is None:
        return v
    n = str_len(v)
    a = clamp(n, a, 0)
    b = clamp(n, b, n)
    if b <= a:
        return b''
    return cut(v, a, b)

def cut(v, a, b):
    """v[a:b] with 0 <= a < b <= len known on the path"""
    out = []
    pos = 0
    for s in segs_of(v):
        n = s.length()
        end = add(pos, n)
        # entirely before a?
        if a >= end:
            pos = end
            continue
        if b <= pos:
            break
        lo = 0
        if pos < a:
            lo = sub(a, pos)
        hi = n
        if b < end:
            hi = sub(b, pos)
        if isinstance(lo, int) and lo == 0 and hi is n:
            out.append(s)
        else:
            if isinstance(s, CB) and not (isinstance(lo, int) and isinstance(hi, int)):
                for j in range(len(s.b)):
                    if (lo <= j) and (j < hi):
                        out.append(CB(s.b[j:j + 1]))
            else:
                out.append(s.slice(lo, hi))
        pos = end
    return norm(out)

# ---------------------------------------------------------------- lists

class ES(object):
    """explicit items"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def length(self): return len(self.items)
    def at(self, i): return self.items[i]
    def slice(self, a, b): return ES(self.items[a:b])
    def subst(self, S): return ES([S.val(x) for x in self.items])
    def __repr__(self): return 'ES%r' % (list(self.items),)

class GS(object):
    """gen(off), ..., gen(off+ln-1)"""
    __slots__ = ('gen', 'off', 'ln')
    def __init__(self, gen, off, ln): self.gen = gen; self.off = off; self.ln = ln
    def length(self): return self.ln
    def at(self, i): return self.gen(mkint(iv(add(self.off, i))))
    def slice(self, a, b): return GS(self.gen, add(self.off, a), sub(b, a))
    def subst(self, S): return GS(self.gen.subst(S), S.val(self.off), S.val(self.ln))
    def __repr__(self): return 'GS(%s%s,%s,%s)' % (self.gen.key, list(self.gen.params), self.off, self.ln)

class FL(object):
    """concatenation over i < n of step(i), each a list rope"""
    __slots__ = ('gen', 'n')
    def __init__(self, gen, n): self.gen = gen; self.n = n
    def length(self):
        args = [p for p in self.gen.params] + [iv(self.n)]
        t = fun('lenfold_' + self.gen.key, *([I] * (len(args) + 1)))(*args)
        E = eng()
        E.fact(t >= 0)
        E.fact(z3.Implies(iv(self.n) <= 0, t == 0))
        return SInt(t)
    def at(self, i): raise Unsupported('index into a folded list')
    def slice(self, a, b): raise Unsupported('slice of a folded list')
    def subst(self, S): return FL(self.gen.subst(S), S.val(self.n))
    def __repr__(self): return 'FL(%s%s,%s)' % (self.gen.key, list(self.gen.params), self.n)

class LRope(object):
    __slots__ = ('segs',)
    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, ES):
                if not s.items:
                    continue
                if out and isinstance(out[-1], ES):
                    out[-1] = ES(out[-1].items + s.items)
                    continue
            elif isinstance(s, GS):
                if isinstance(s.ln, int) and s.ln <= 0:
                    continue
                if out and isinstance(out[-1], GS) and out[-1].gen.same(s.gen):
                    p = out[-1]
                    e = z3.simplify(iv(add(p.off, p.ln)) - iv(s.off))
                    if z3.is_int_value(e) and e.as_long() == 0:
                        out[-1] = GS(p.gen, p.off, add(p.ln, s.ln))
                        continue
            elif isinstance(s, FL):
                if isinstance(s.n, int) and s.n <= 0:
                    continue
            out.append(s)
        self.segs = tuple(out)
    def length(self):
        n = 0
        for s in self.segs:
            n = add(n, s.length())
        return n
    def concrete(self):
        """the tuple of items if all are explicit, else None"""
        if not self.segs:
            return ()
        if len(self.segs) == 1 and isinstance(self.segs[0], ES):
            return self.segs[0].items
        return None
    def at(self, i):
        """item i; i is in range already"""
        pos = 0
        for k, s in enumerate(self.segs):
            end = add(pos, s.length())
            if k == len(self.segs) - 1 or (i < end):
                off = sub(i, pos)
                if isinstance(s, ES) and not isinstance(off, int):
                    for j in range(len(s.items) - 1):
                        if off == j:
                            return s.items[j]
                    return s.items[-1]
                return s.at(off)
            pos = end
        raise Unsupported('index out of range in LRope.at')
    def slice(self, a, b):
        """0 <= a <= b <= len known on the path"""
        if self.concrete() is not None and isinstance(a, int) and isinstance(b, int):
            return LRope([ES(self.concrete()[a:b])])
        if b <= a:
            return LRope()
        out = []
        pos = 0
        for s in self.segs:
            n = s.length()
            end = add(pos, n)
            if a >= end:
                pos = end
                continue
            if b <= pos:
                break
            lo = 0
            if pos < a:
                lo = sub(a, pos)
            hi = n
            if b < end:
                hi = sub(b, pos)
            if isinstance(lo, int) and lo == 0 and hi is n:
                out.append(s)
            elif isinstance(s, ES) and not (isinstance(lo, int) and isinstance(hi, int)):
                for j in range(len(s.items)):
                    if (lo <= j) and (j < hi):
                        out.append(ES(s.items[j:j + 1]))
            else:
                out.append(s.slice(lo, hi))
            pos = end
        return LRope(out)
    def plus(self, o): return LRope(self.segs + o.segs)
    def subst(self, S): return LRope([s.subst(S) for s in self.segs])
    def __repr__(self): return 'L%r' % (list(self.segs),)

def lrope(items):
    return LRope([ES(items)]) if items else LRope()

# ---------------------------------------------------------------- dictionaries

class DRep(object):
    """entries over an optional unknown base.

    entries: tuple of (key, value), keys pairwise distinct on the path, in insertion order
    dead: keys removed from the base
    base: None or SymMap"""
    __slots__ = ('entries', 'dead', 'base')
    def __init__(self, entries=(), dead=(), base=None):
        self.entries = tuple(entries)
        self.dead = tuple(dead)
        self.base = base
    def subst(self, S):
        return DRep([(S.val(k), S.val(v)) for k, v in self.entries], [S.val(k) for k in self.dead],
                    self.base.subst(S) if self.base is not None else None)
    def __repr__(self): return 'D(%r,-%r,%r)' % (list(self.entries), list(self.dead), self.base)

class SymMap(object):
    """an unknown map: has is an Array(Int,Bool) term over key terms; get(keyterm, key) gives a value.
    vals: Array(Int,Int) term of value identities when the map is flat"""
    def __init__(self, has, get=None, vals=None, keyof=None, enum=None, mkval=None, card=None, promote=None):
        self.card = card         # number of entries (int term), or None
        self.promote = promote   # None, or id(ref) -> key: objects that stand for entries of the base
        self.has = has
        self.get = get
        self.vals = vals
        self.keyof = keyof
        self.enum = enum         # LRope of (key) in iteration order, or None
        self.mkval = mkval       # term -> value, for flat maps
    def subst(self, S):
        return SymMap(S.term(self.has), self.get, S.term(self.vals) if self.vals is not None else None,
                      self.keyof, self.enum.subst(S) if self.enum is not None else None, self.mkval,
                      S.term(self.card) if self.card is not None else None, self.promote)

class LogRep(object):
    """a dict of lists given by the log of the items added to it, in order (MsgData.blocks)"""
    __slots__ = ('log',)
    def __init__(self, log): self.log = log
    def subst(self, S): return LogRep(self.log.subst(S))
    def __repr__(self): return 'Log(%r)' % (self.log,)

class Subst(object):
    """substitution of terms in values; copies objects allocated in a loop body"""
    def __init__(self, pairs, heap=None, lo=None, memo=None, materialize=None):
        self.pairs = [(a, b) for a, b in pairs if not a.eq(b)]
        self.materialize = materialize
    def then(self, o):
        a, b = self, o
        class Both(Subst):
            def __init__(self): pass
            def term(self, t): return b.term(a.term(t))
            def val(self, v): return b.val(a.val(v))
            def then(self, c): return Subst.then(self, c)
        return Both()
    def term(self, t):
        if not self.pairs:
            return t
        return z3.substitute(t, *self.pairs)
    def val(self, v):
        if v is None or isinstance(v, (bool, int, bytes, str, ClassV, FuncV, Builtin, ModuleV)):
            return v
        if isinstance(v, tuple):
            return tuple(self.val(x) for x in v)
        if isinstance(v, SInt):
            return mkint(self.term(v.t))
        if isinstance(v, SBool):
            return mkbool(self.term(v.t))
        if isinstance(v, Flt):
            return Flt(self.term(v.t))
        if isinstance(v, (Rope, LRope, DRep, LogRep)):
            return v.subst(self)
        if isinstance(v, SName):
            return SName(self.term(v.t))
        if isinstance(v, OStr):
            return OStr(self.term(v.t))
        if isinstance(v, SUni):
            return SUni(self.term(v.t), v.utf8.subst(self))
        if isinstance(v, SVal):
            return SVal(self.term(v.t), v.notnone, v.call, v.attrs, v.typ, v.notfalse)
        if isinstance(v, SRef):
            return v.schema.make(*[self.term(a) for a in v.args])
        if isinstance(v, Ref):
            if self.materialize is not None:
                return self.materialize(v, self)
            return v
        if isinstance(v, BoundV):
            return BoundV(self.val(v.f), self.val(v.self_))
        if isinstance(v, SliceV):
            return SliceV(self.val(v.a), self.val(v.b), self.val(v.c))
        if isinstance(v, Poison):
            return v
        if hasattr(v, 'subst'):
            return v.subst(self)
        return v
