"""The world of the contracts on the prover's side: inputs are unknown, checks are proof obligations."""
import z3, time
from values import *
import values
from ropes import *
import engine, interp, models, loops

class Outcome(object):
    def __init__(self, ok, value, exc=None, names=()):
        self.ok = ok; self.value = value; self.exc = exc; self.names = names
    def __repr__(self): return 'value %r' % (self.value,) if self.ok else 'raises %s' % (self.names[:1],)

class Listing(object):
    """host view of a list input"""

class SpecFold(object):
    """a recursively defined state, unfolded at the indices of interest"""
    def __init__(self, W, init, step):
        E = W.E
        self.W = W; self.step = step
        st = tuple(E.loopstack) + W.idx
        self.args = st
        self.init = init
        self.sorts = [loops.sort_of(x) for x in init]
        nm = E.uid('fold')
        self.fs = [fun('%s_%d' % (nm, k), *([I] * (len(st) + 1) + [s])) for k, s in enumerate(self.sorts)]
        for x, t in zip(init, self.state(z3.IntVal(0))):
            E.fact(t == self.tm(x))
        E.folds.append(self)
        self.done = set()
    def tm(self, v):
        s = loops.sort_of(v)
        return iv(v) if s is I else bv(v) if s is B else Flt.of(v).t
    def wrap(self, t, s):
        return mkint(t) if s is I else mkbool(t) if s is B else Flt(t)
    def state(self, n):
        return [f(*(self.args + (iv(n),))) for f in self.fs]
    def at(self, n):
        r = tuple(self.wrap(t, s) for t, s in zip(self.state(n), self.sorts))
        return r if len(r) > 1 else r[0]
    def terms(self):
        return [(s, lambda n, f=f: f(*(self.args + (iv(n),)))) for f, s in zip(self.fs, self.sorts)]
    def unfold(self, i):
        E = self.W.E
        i = z3.simplify(iv(i))
        key = ('spec', id(self), i.get_id())
        if key in E.memo: return
        E.memo[key] = i
        st = self.at(i)
        if len(self.fs) == 1: st = (st,)
        new = self.step(st if len(self.fs) > 1 else st[0], mkint(i))
        if len(self.fs) == 1: new = (new,)
        nxt = self.state(z3.simplify(i + 1))
        E.fact(z3.Implies(i >= 0, z3.And([t == self.tm(x) for t, x in zip(nxt, new)])))

class ParFold(object):
    """states s(p, 0) = init(p), s(p, i+1) = step(p, s(p, i), i) for every p (k integers, the turns of the enclosing loops)"""
    def __init__(self, W, k, init, step):
        E = W.E
        self.W = W; self.k = k; self.init = init; self.step = step
        self.f = fun(E.uid('pfold'), *([I] * (k + 2)))
        E.folds.append(self)
    def term(self, p, n):
        E = self.W.E
        p = tuple(z3.simplify(iv(x)) for x in p)
        key = ('pf', id(self)) + tuple(x.get_id() for x in p)
        if key not in E.memo:
            E.memo[key] = p
            E.fact(self.f(*(p + (z3.IntVal(0),))) == iv(self.init(tuple(mkint(x) for x in p))))
        return self.f(*(p + (iv(n),)))
    def at(self, p, n):
        return mkint(self.term(p, n))
    def here(self):
        st = self.W.E.turns
        return tuple(st[:self.k]) if len(st) >= self.k else None
    def terms(self):
        p = self.here()
        return [] if p is None else [(I, lambda n: self.term(p, n))]
    def unfold(self, i):
        p = self.here()
        if p is None or len(self.W.E.turns) > self.k + 1: return
        self.unfold_at(p, i)
    def unfold_at(self, p, i):
        E = self.W.E
        i = z3.simplify(iv(i))
        key = ('pfu', id(self), i.get_id()) + tuple(z3.simplify(iv(x)).get_id() for x in p)
        if key in E.memo: return
        E.memo[key] = (i, p)
        s = self.at(p, i)
        new = self.step(tuple(mkint(iv(x)) for x in p), s, mkint(i))
        E.fact(z3.Implies(i >= 0, self.term(p, z3.simplify(i + 1)) == iv(new)))

class SymWorld(object):
    sym = True
    def __init__(self, E, I_, base):
        self.E = E; self.I = I_
        self.base = base
        self.idx = ()             # index terms of the enclosing list inputs
        self.names = ()           # their names
        self.lens = {}
        self.prefix = ''
        self.covers = E.covers

    # inputs ----------------------------------------------------------------------------------

    def _term(self, name, sort):
        if self.idx:
            return fun('in_' + name, *([I] * len(self.idx) + [sort]))(*self.idx)
        return z3.Const('in_' + name, sort)

    def _reg(self, name, build, conv):
        """build(idx terms) -> term(s); conv(model, terms) -> python value"""
        names = self.names
        lens = self.lens
        def fn(m):
            out = {}
            def rec(k, idx):
                if len(out) > 3000: return
                if k == len(names):
                    key = name if not idx else '%s[%s]' % (name, ','.join(str(i) for i in idx))
                    out[key] = conv(m, build(tuple(z3.IntVal(i) for i in idx)))
                    return
                ln = lens[names[k]](tuple(z3.IntVal(i) for i in idx))
                n = m.eval(ln, model_completion=True).as_long()
                for i in range(min(n, 300)):
                    rec(k + 1, idx + (i,))
            rec(0, ())
            return out
        self.E.inputs[name] = fn

    def _mk(self, name, sort):
        if self.names:
            f = fun('in_' + name, *([I] * len(self.names) + [sort]))
            return lambda idx: f(*idx)
        c = z3.Const('in_' + name, sort)
        return lambda idx: c

    def int(self, name, lo=None, hi=None):
        t = self._term(name, I)
        if lo is not None: self.E.fact(t >= iv(lo))
        if hi is not None: self.E.fact(t <= iv(hi))
        self._reg(name, self._mk(name, I), lambda m, t: m.eval(t, model_completion=True).as_long())
        return SInt(t)
    def bool(self, name):
        t = self._term(name, B)
        self._reg(name, self._mk(name, B), lambda m, t: z3.is_true(m.eval(t, model_completion=True)))
        return SBool(t)
    def choice(self, name, options):
        """one of the options; decided here"""
        k = self.int(name, 0, len(options) - 1)
        for i in range(len(options) - 1):
            if k == i:
                return options[i]
        return options[-1]
    def bytes(self, name, n=None, lo=None, hi=None, where=None, draw=None):
        """a byte string; n: its length if fixed; where(b, i, n): what holds of every byte of it;
        draw(rng): draws one for the real code"""
        if n is not None:
            a = Atom('in_' + name, self.idx, n if isinstance(n, int) else n)
        else:
            a = Atom('in_' + name, self.idx)
            if lo is not None: self.E.fact(iv(a.length()) >= lo)
            if hi is not None: self.E.fact(iv(a.length()) <= hi)
        if where is not None:
            # instances about the byte and its neighbours
            raw = Atom(a.fname, a.args, a._len)
            def fact(at, i, n):
                return bv(where(lambda k: mkint(raw.at(k)), mkint(iv(i)), mkint(iv(n))))
            a.where = fact
        def build(idx):
            return Atom('in_' + name, idx, n if isinstance(n, int) else None), n
        def conv(m, b):
            a, n0 = b
            if n0 is not None and not isinstance(n0, int):
                ln = m.eval(iv(n0), model_completion=True).as_long()
            elif isinstance(n0, int): ln = n0
            else:
                t = fun('len_' + a.fname, *([I] * (len(a.args) + 1)))(*a.args) if a.args else z3.Int('len_' + a.fname)
                ln = m.eval(t, model_completion=True).as_long()
            f = fun('byte_' + a.fname, *([I] * (len(a.args) + 2)))
            out = []
            for i in range(min(ln, 20000)):
                out.append(m.eval(f(*(a.args + (z3.IntVal(i),))), model_completion=True).as_long() & 255)
            return bytes(out)
        self._reg(name, build, conv)
        return norm([AT(a, 0, a.length())])
    def name(self, name):
        """a byte string that is only compared"""
        t = self._term(name, I)
        # any text: one the program names (at most -10**6) or another
        self.E.fact(z3.Or(t >= 0, z3.And(t <= -10 ** 6, t > -10 ** 8)))
        def conv(m, t):
            i = m.eval(t, model_completion=True).as_long()
            return values.text_of.get(i, {'name': abs(i)})
        self._reg(name, self._mk(name, I), conv)
        return SName(t)
    def numeral(self, name, base=10):
        """(a text, the number that int(text, base) and string.atoi read it as)"""
        t = self.name(name)
        from models import text_ident, fun
        i = text_ident(t)
        self.E.fact(fun('isnum_%s' % base, I, z3.BoolSort())(i))
        return t, SInt(fun('num_%s' % base, I, I)(i))
    def opaque(self, name, notnone=True):
        t = self._term(name, I)
        self.E.fact(t >= 0)
        self._reg(name, self._mk(name, I), lambda m, t: {'opaque': m.eval(t, model_completion=True).as_long()})
        return SVal(t, notnone=notnone, notfalse=notnone)
    def real(self, name, lo=None, hi=None):
        t = self._term(name, values.R)
        if lo is not None: self.E.fact(t >= Flt.of(lo).t)
        if hi is not None: self.E.fact(t <= Flt.of(hi).t)
        def conv(m, t):
            v = m.eval(t, model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(20)
            return float(v.numerator_as_long()) / float(v.denominator_as_long())
        self._reg(name, self._mk(name, values.R), conv)
        return Flt(t)
    def f32(self, name):
        """a real that is a value of the 32 bit format"""
        f = self.real(name)
        r = fun('round32', values.R, values.R)
        self.E.fact(r(f.t) == f.t)
        return f
    def uni(self, name):
        """a unicode text"""
        t = self._term(name, I)
        self.E.fact(t >= 0)
        u = Atom('utf8_' + name, self.idx)
        self._reg(name, self._mk(name, I), lambda m, t: {'uni': m.eval(t, model_completion=True).as_long()})
        return SUni(t, norm([AT(u, 0, u.length())]))
    def utf8(self, u):
        return u.utf8 if isinstance(u, SUni) else u.encode('utf-8')
    def list(self, name, mk, lo=0, hi=None):
        """python list of mk(i); its length is not known"""
        return self.E.new_list(self.seq(name, mk, lo, hi))
    def seq(self, name, mk, lo=0, hi=None):
        nm, pre = self.names, name
        if self.idx:
            ln = fun('in_n_' + name, *([I] * (len(self.idx) + 1)))
            n = ln(*self.idx)
            self.lens[name] = lambda idx: ln(*idx[:len(nm)])
        else:
            n = z3.Int('in_n_' + name)
            self.lens[name] = lambda idx: n
        self.E.fact(n >= lo)
        if hi is not None: self.E.fact(n <= hi)
        names = nm
        W = self
        # the length itself is an input
        self._reg('#' + name, (lambda idx: ln(*idx)) if self.idx else (lambda idx: n),
                  lambda m, t: m.eval(t, model_completion=True).as_long())
        def fn(*a):
            si, sn = W.idx, W.names
            W.idx = tuple(iv(x) for x in a); W.names = nm + (name,)
            try:
                return mk(mkint(iv(a[-1])))
            finally:
                W.idx, W.names = si, sn
        return LRope([GS(Gen(fn, self.idx), 0, mkint(n))])
    def index(self, name, n):
        """some index below n"""
        i = self.int(name, 0)
        self.E.assume_feasible(iv(i) < iv(n))
        return i

    def look(self, i):
        """what the completed loops did in turn i matters"""
        self.E.loop_index(iv(i))

    def mapping(self, name, key, val, sized=True, objects=False, total=False):
        """an arbitrary dict.  key(i) draws keys for the real code; val(i) is the value of an entry;
        objects: its values are mutable objects, one per key"""
        A = z3.ArraySort(I, B)
        pre = [I] * len(self.idx)
        has = fun('has_' + name, *(pre + [A]))(*self.idx) if pre else z3.Const('has_' + name, A)
        if total: has = z3.K(I, z3.BoolVal(True))
        card = fun('card_' + name, *(pre + [I]))(*self.idx) if pre else z3.Int('card_' + name)
        self.E.fact(card >= 0)
        W = self; nm = self.names; ix = self.idx
        self.lens[name] = lambda idx: z3.IntVal(0)
        promo = {}
        memo = {}
        def get(t, k):
            kk = ('map', name, t.get_id()) + tuple(x.get_id() for x in ix)
            if kk in W.E.memo: return W.E.memo[kk][0]
            si, sn = W.idx, W.names
            W.idx = ix + (t,); W.names = nm + (name,)
            try:
                v = val(k)
            finally:
                W.idx, W.names = si, sn
            W.E.memo[kk] = (v, t, ix)
            W.E.fact(card >= 1)
            if isinstance(v, Ref): promo[v.id] = k
            return v
        if not ix: self._reg('#' + name, lambda idx: card, lambda m, t: min(m.eval(t, model_completion=True).as_long(), 5))
        c = DRep((), (), SymMap(has, get, None, None, None, None, card if sized else None, promo if objects else None))
        r = self.E.new_dict()
        self.E.heap[r.id] = c
        return r
    def haskey(self, d, k):
        return self.I.truth(models.contains(self.I, d, k))
    def fold(self, init, step):
        """states s(0) = init, s(i+1) = step(s(i), i)"""
        return SpecFold(self, init if isinstance(init, tuple) else (init,), step)
    def pfold(self, k, init, step):
        return ParFold(self, k, init, step)
    def map_invariant(self, name, f):
        """offered to loops that change a dict: f(has, n), has(k) tells whether k is a key at turn n"""
        def inv(sort, t, n):
            if sort is not loops.MAP: return None
            return bv(f(lambda k: mkbool(z3.Select(t[0], models.key_term(self.E, k))), mkint(iv(n))))
        self.E.invs.append((name, inv))
    def contract(self, qual, f):
        """use this instead of the body of a function: f(args, kwargs)"""
        self.I.contracts[qual] = lambda interp, *a: self._arg(f(list(a[-2]), dict(a[-1])))

    # values ----------------------------------------------------------------------------------

    def imp(self, mod, *names):
        v = self.I.import_module(mod)
        for n in names:
            v = self.I.getattr(v, n)
        return v
    def get(self, o, path):
        for p in path.split('.'):
            o = self.I.getattr(o, p)
        return o
    def has(self, o, name):
        return self.I.getattr(o, name, None) is not None
    def set(self, o, name, v):
        self.I.setattr(o, name, self._arg(v))
    def patch(self, o, name, v):
        """replace an attribute of a module or class for this run"""
        if isinstance(o, str): o = self.I.import_module(o)
        self.I.setattr(o, name, self._arg(v))
    def _arg(self, v):
        if isinstance(v, float): return Flt(v)
        if isinstance(v, tuple): return tuple(self._arg(x) for x in v)
        if isinstance(v, list):
            return self.E.new_list([self._arg(x) for x in v])
        if isinstance(v, dict):
            return self.E.new_dict([(self._arg(k), self._arg(x)) for k, x in v.items()])
        if isinstance(v, LRope):
            return self.E.new_list(v)
        if callable(v) and not isinstance(v, (Builtin, ClassV, FuncV, BoundV, SVal)) and type(v).__name__ == 'function':
            return Builtin('contract', v)
        return v
    def arg(self, v): return self._arg(v)
    def call(self, f, *a, **k):
        return self.I.call(f, [self._arg(x) for x in a], dict((n, self._arg(x)) for n, x in k.items()))
    def do(self, o, name, *a, **k):
        return self.call(self.get(o, name), *a, **k)
    def attempt(self, f, *a, **k):
        d = len(self.I.stack); xs = self.I.exc_stack
        try:
            return Outcome(True, self.call(f, *a, **k))
        except PyExc as e:
            self.I.exc_stack = xs
            v = e.value
            names = tuple(c.name for c in v.cls.mro) if isinstance(v, Ref) else ('?',)
            return Outcome(False, None, v, names)
    def tryto(self, o, name, *a, **k):
        try:
            f = self.get(o, name)
        except PyExc as e:
            return Outcome(False, None, e.value, tuple(c.name for c in e.value.cls.mro))
        return self.attempt(f, *a, **k)
    def len(self, v):
        return self.I.call(self.I.builtins['len'], [self._arg(v)], {})
    def item(self, v, k):
        return self.I.getitem(v, k)
    def dict(self, d=()):
        return self._arg(dict(d))
    def pairs(self, ps):
        """dict from a list of pairs"""
        d = self.E.new_dict()
        for k, v in ps:
            self.I.setitem(d, k, self._arg(v))
        return d
    def lst(self, items=()):
        return self._arg(items if isinstance(items, LRope) else list(items))
    def eq(self, a, b):
        return self.I.py_eq(a, b)
    def is_none(self, v):
        return self.I.is_(v, None)
    def same_obj(self, a, b):
        return self.I.is_(a, b)
    def isinst(self, v, cname):
        return any(c.name == cname for c in self.I.type_of(v).mro)
    def true(self, v):
        return self.I.truth(v)
    def ite(self, c, a, b):
        c = c if isinstance(c, (bool, SBool)) else self.I.truth(c)
        if isinstance(c, bool): return a if c else b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(z3.If(c.t, bv(a), bv(b)))
        if is_int(a) and is_int(b):
            return mkint(z3.If(c.t, iv(a), iv(b)))
        if isinstance(a, Flt) or isinstance(b, Flt):
            return Flt(z3.If(c.t, Flt.of(a).t, Flt.of(b).t))
        return a if self.E.decide(c.t) else b
    def all(self, *cs):
        return mkbool(z3.And([bv(c) for c in cs])) if cs else True
    def any(self, *cs):
        return mkbool(z3.Or([bv(c) for c in cs])) if cs else False
    def no(self, c):
        return mkbool(z3.Not(bv(c)))
    def div(self, a, b): return int_div(a, b)
    def mod(self, a, b): return int_mod(a, b)

    # bytes
    def byte(self, *vs):
        return norm([BT(iv(v)) for v in vs])
    def uint(self, v, n, big=False):
        """the n bytes of 0 <= v < 256**n"""
        bs = models.bytes_of_uint(iv(v), n)
        return norm([BT(b) for b in (reversed(bs) if big else bs)])
    def sint(self, v, n, big=False):
        t = iv(v)
        return self.uint(SInt(z3.If(t < 0, t + 256 ** n, t)), n, big)
    def fbits(self, x, n=4, big=False):
        bs = models.bytes_of_uint(models.f_bits(n, Flt.of(x).t), n)
        return norm([BT(b) for b in (reversed(bs) if big else bs)])
    def fround(self, x, n=4):
        r = fun('round%d' % (8 * n), values.R, values.R)
        models.f_bits(n, Flt.of(x).t)
        return Flt(r(Flt.of(x).t))
    def toint(self, b, n, big=False, signed=False):
        bs = [index_str(b, k) for k in range(n)]
        if big: bs.reverse()
        u = models.uint_of_bytes(bs)
        if signed: u = z3.If(u >= 256 ** n // 2, u - 256 ** n, u)
        return mkint(u)
    def tofloat(self, b, n=4, big=False):
        bs = [index_str(b, k) for k in range(n)]
        if big: bs.reverse()
        return Flt(models.f_val(n, models.uint_of_bytes(bs)))
    def cat(self, *vs): return cat(*vs)
    def sub(self, v, a, b): return slice_str(v, a, b)
    def at(self, v, i): return mkint(index_str(v, i))
    def blen(self, v): return str_len(v)
    def zeros(self, n): return norm([RS(z3.IntVal(0), n)])
    def upper(self, s): return s.upper()
    def tobytes(self, s):
        return s.encode('latin-1') if isinstance(s, str) else s

    # spec sequences
    def lrope(self, l):
        if isinstance(l, Ref): return self.E.get(l)
        return self.E.as_lrope(l)
    def map(self, l, f):
        """[f(x) for x in l]"""
        out = []
        for s in self.lrope(l).segs:
            if isinstance(s, ES): out.append(ES([f(x) for x in s.items]))
            elif isinstance(s, GS): out.append(GS(Gen(lambda i, s=s: f(s.gen(i))), s.off, s.ln))
            else: raise Unsupported('map over a folded list')
        return LRope(out)
    def upto(self, n, f):
        """[f(i) for i in range(n)]"""
        if isinstance(n, int): return lrope(tuple(f(i) for i in range(n)))
        return LRope([GS(Gen(lambda i: f(i)), 0, n)])
    def join(self, l, f):
        """f(x) for x in l, one after the other (bytes)"""
        out = []
        for s in self.lrope(l).segs:
            if isinstance(s, ES): out.extend(y for x in s.items for y in segs_of(f(x)))
            elif isinstance(s, GS): out.append(FS(Gen(lambda i, s=s: f(s.at(i))), s.ln))
            else: raise Unsupported('join over a folded list')
        return norm(out)
    def ljoin(self, n, f):
        """f(0) ++ ... ++ f(n-1) (spec lists)"""
        return LRope([FL(Gen(lambda i: self.lrope(f(i))), n)])
    def lcat(self, *ls):
        r = LRope()
        for l in ls: r = r.plus(self.lrope(l))
        return r
    def lslice(self, l, a, b):
        return self.lrope(l).slice(a, b)
    def items(self, l):
        """the items, if their number is known"""
        l = self.lrope(l)
        c = l.concrete()
        if c is None:
            n = l.length()
            if isinstance(n, int): return [l.at(i) for i in range(n)]
            raise Unsupported('number of items unknown')
        return list(c)
    def nth(self, l, i): return self.lrope(l).at(i)
    def obj(self, cls=None, **f): return engine.SpecObj(f, cls)
    def every(self, n, f):
        """prove or run f(i) for all i below n"""
        def run():
            i = z3.Const(self.E.uid('every'), I)
            self.E.assume(z3.And(i >= 0, i < iv(n)))
            if self.E.query(None) == 'unsat': return
            self.E.loop_index(i)
            f(SInt(i))
        self.E.subexplore(run, scope=self.E.uid('ev') + '.')

    # ghost state
    def log(self):
        """a list that stand-ins append to"""
        return self.E.new_list([])
    def note(self, log, *x):
        models.list_append(self.I, log, tuple(x) if len(x) != 1 else x[0])
    def cell(self, **attrs):
        """ghost state: a fresh object with these attributes"""
        return self.E.alloc('inst', self.I.OBJECT, dict((k, self._arg(v)) for k, v in attrs.items()))
    def extend(self, log, seq):
        """all items of a spec list at the end of a log"""
        models.list_extend(self.I, log, seq)
    def fn(self, f, name='contract'):
        """a callable for the code under test"""
        return Builtin(name, lambda *a, **k: self._arg(f(*a, **k)))
    def stub(self, **attrs):
        at = {}
        for n, v in attrs.items():
            at[n] = (lambda sv, v=v: self._arg(v)) 
        s = SVal(z3.IntVal(intern_id(('stub', self.E.uid('stub')))), notnone=True, attrs=at, notfalse=True)
        return s
    def cb(self, name, f):
        """an opaque callable identified by an unknown identity"""
        t = self._term(name, I)
        self.E.fact(t >= 0)
        self._reg(name, self._mk(name, I), lambda m, t: {'opaque': m.eval(t, model_completion=True).as_long()})
        return SVal(t, notnone=True, notfalse=True, call=lambda sv, a, k: self._arg(f(sv, a, k)))
    def throw(self, clsname, *args):
        self.I.py_raise(clsname, *args)
    def new_exc(self, clsname, *args):
        return self.I.make_exc(clsname, *args)
    def uf(self, name, *args):
        """bytes that depend on nothing but these values"""
        a = Atom('uf_' + name, tuple(models.key_term(self.E, x) if not isinstance(x, (SVal, SInt, int)) else iv(x) if not isinstance(x, SVal) else x.t for x in args))
        return norm([AT(a, 0, a.length())])
    def raise_(self, e):
        raise PyExc(e)

    def key_of(self, d): return d

    # assumptions and obligations
    def assume(self, c):
        self.E.assume_feasible(bv(c) if isinstance(c, (bool, SBool)) else bv(self.I.truth(c)))
    def given(self, c):
        """holds of an input, wherever it is used"""
        self.E.fact(bv(c) if isinstance(c, (bool, SBool)) else bv(self.I.truth(c)))
    def check(self, name, c, detail=''):
        self.E.count += 1
        if isinstance(c, (SInt, SVal)): c = self.I.truth(c)
        if c is None: c = False
        return self.E.check(self.prefix + name, c if isinstance(c, bool) else bv(c), detail)
    def same(self, name, a, b):
        self.E.count += 1
        return self.E.same(self.prefix + name, self._spec(a), self._spec(b))
    def _spec(self, v):
        if isinstance(v, float): return Flt(v)
        if isinstance(v, tuple): return tuple(self._spec(x) for x in v)
        return v
    def is_dict(self, name, d, items):
        """d holds exactly these entries: list of (key, value)"""
        E, I_ = self.E, self.I
        E.count += 1
        rep = E.get(d)
        if not isinstance(rep, DRep) or rep.base is not None:
            return E.fail(self.prefix + name, 'not a known dict')
        self.check(name + ' (size)', len(rep.entries) == len(items), 'has %d entries, expected %d' % (len(rep.entries), len(items)))
        for k, v in items:
            f, w = models.dict_lookup(I_, rep, k)
            self.check(name + ' (key)', f, 'key %r is missing' % (k,))
            self.same(name + ' (value)', w, v)
    def raises(self, name, r, exc):
        return self.check(name, (not r.ok) and exc in r.names, 'expected %s, got %r' % (exc, r))
    def cover(self, name):
        if name not in self.covers:
            if self.E.query(None) == 'sat':
                self.covers.add(name)
    def need(self, name): pass
    def frozen(self, o): return self.snapshot(o)
    def snapshot(self, *os):
        """contents of the objects now, to compare later"""
        E = self.E
        seen = {}
        def rec(v):
            if isinstance(v, Ref) and v.id not in seen:
                c = E.heap[v.id]
                seen[v.id] = (v, c)
                if v.kind == 'inst':
                    for x in c.values(): rec(x)
                elif v.kind == 'list':
                    for s in c.segs:
                        if isinstance(s, ES):
                            for x in s.items: rec(x)
                elif v.kind == 'dict':
                    if isinstance(c, DRep):
                        for k, x in c.entries: rec(x)
            elif isinstance(v, tuple):
                for x in v: rec(x)
        for o in os: rec(o)
        return seen
    def unchanged(self, name, snap):
        E = self.E
        E.count += 1
        for i, (v, c) in snap.items():
            d = E.heap[i]
            if d is c: continue
            if v.kind == 'inst':
                for k in set(c) | set(d):
                    if k not in c or k not in d:
                        self.check(name, False, 'field %s of %s appears or disappears' % (k, v)); continue
                    if not loops.same_val(c[k], d[k]):
                        self.same(name + ' (%s.%s)' % (v.cls.name, k), d[k], c[k])
            elif v.kind == 'list':
                if not loops.same_val(c, d): self.same(name, d, c)
            else:
                if not loops.same_val(c, d):
                    if isinstance(c, DRep) and isinstance(d, DRep) and c.base is d.base and len(c.dead) == len(d.dead) and c.base is not None and c.base.promote is not None:
                        old = dict((id(x), 1) for k, x in c.entries)
                        if [1 for k, x in d.entries if isinstance(x, Ref) and (x.id in c.base.promote)] == [1] * (len(d.entries) - len(c.entries)) and \
                                all(loops.same_val(p, q) for p, q in zip(c.entries, d.entries)) and \
                                all(loops.same_val(k, c.base.promote[x.id]) for k, x in d.entries[len(c.entries):]):
                            continue
                    self.check(name, False, 'contents of a %s change' % v.kind)
