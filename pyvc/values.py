"""Values of the symbolic interpreter.

Concrete Python 2 values are host values: None, bool, int, bytes (py2 str),
str (py2 unicode), tuple.  Everything else is one of the classes below.
"""
import z3
from fractions import Fraction

class Unsupported(Exception):
    """the code or the contract leaves the subset the engine understands"""

class NoFork(Exception):
    """a decision where none may be taken"""

class PathEnd(Exception):
    """the current path is finished or infeasible"""

class PyExc(Exception):
    """a Python exception raised by the interpreted code"""
    def __init__(self, value):
        Exception.__init__(self, value)
        self.value = value

ENG = None          # the running engine, set by engine.Engine

def eng():
    return ENG

def set_engine(e):
    global ENG
    ENG = e

# ---------------------------------------------------------------- terms

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()

_funs = {}
def fun(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    f = _funs.get(k)
    if f is None:
        f = _funs[k] = z3.Function(name, *sorts)
    return f

def iv(v):
    """int term of an int-like value"""
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported('not an int: %r' % (v,))

def bv(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported('not a bool: %r' % (v,))

def mkint(t):
    """SInt or int"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)

def mkbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)

def is_int(v):
    return isinstance(v, (int, SInt, SBool))

class SBool(object):
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __bool__(self):
        return eng().decide(self.t)
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.t == bv(o))
        if isinstance(o, (int, SInt)):
            return mkbool(iv(self) == iv(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(bv(r)))
    __hash__ = None
    def __and__(self, o): return mkbool(z3.And(self.t, bv(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.t, bv(o)))
    __ror__ = __or__
    def __invert__(self): return mkbool(z3.Not(self.t))
    def __repr__(self): return 'SBool(%s)' % self.t

def _ib(op):
    def f(self, o):
        if isinstance(o, (Flt, float)):
            return getattr(Flt.of(self), op)(o)
        if not is_int(o):
            return NotImplemented
        a, b = self.t, iv(o)
        return mkint(getattr(a, op)(b))
    return f

def _ic(op):
    def f(self, o):
        if isinstance(o, (Flt, float)):
            return getattr(Flt.of(self), op)(o)
        if not is_int(o):
            return False if op == '__eq__' else True if op == '__ne__' else NotImplemented
        return mkbool(getattr(self.t, op)(iv(o)))
    return f

class SInt(object):
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    __add__ = _ib('__add__'); __radd__ = _ib('__radd__')
    __sub__ = _ib('__sub__'); __rsub__ = _ib('__rsub__')
    __mul__ = _ib('__mul__'); __rmul__ = _ib('__rmul__')
    __eq__ = _ic('__eq__'); __ne__ = _ic('__ne__')
    __lt__ = _ic('__lt__'); __le__ = _ic('__le__')
    __gt__ = _ic('__gt__'); __ge__ = _ic('__ge__')
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __floordiv__(self, o): return int_div(self, o)
    def __rfloordiv__(self, o): return int_div(o, self)
    def __mod__(self, o): return int_mod(self, o)
    def __rmod__(self, o): return int_mod(o, self)
    def __and__(self, o): return int_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return int_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return int_xor(self, o)
    __rxor__ = __xor__
    def __lshift__(self, o): return int_shl(self, o)
    def __rshift__(self, o): return int_shr(self, o)
    def __bool__(self): return eng().decide(self.t != 0)
    def __index__(self): raise Unsupported('symbolic int used as a host index')
    def __int__(self): raise Unsupported('symbolic int used as a host int')
    __hash__ = None
    def __repr__(self): return 'SInt(%s)' % self.t

def int_div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int) and not isinstance(b, bool) and b > 0:
        return mkint(iv(a) / z3.IntVal(b))          # Euclidean == floor for a positive divisor
    q, r = divmod_sym(a, b)
    return q

def divmod_sym(a, b):
    E = eng()
    if b == 0:
        E.py_raise('ZeroDivisionError', b'integer division or modulo by zero')
    q = E.fresh('q', I); r = E.fresh('r', I)
    ta, tb = iv(a), iv(b)
    E.assume(ta == q * tb + r)
    E.assume(z3.If(tb > 0, z3.And(r >= 0, r < tb), z3.And(r <= 0, r > tb)))
    return SInt(q), SInt(r)

def int_mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int) and not isinstance(b, bool) and b > 0:
        return mkint(iv(a) % z3.IntVal(b))
    q, r = divmod_sym(a, b)
    return r

def _bit(a, k):
    return mkint((iv(a) / z3.IntVal(2 ** k)) % 2)

def int_and(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >= 0:
            # sum of the runs of set bits
            t = None; k = 0; m = b
            while m:
                if m & 1:
                    j = 0
                    while (m >> j) & 1:
                        j += 1
                    part = ((iv(a) / z3.IntVal(2 ** k)) % z3.IntVal(2 ** j)) * z3.IntVal(2 ** k)
                    t = part if t is None else t + part
                    k += j; m >>= j
                else:
                    k += 1; m >>= 1
            return 0 if t is None else mkint(t)
        # a & ~m  with m = ~b >= 0
        return mkint(iv(a) - iv(int_and(a, ~b)))
    f = fun('bitand', I, I, I)
    E = eng()
    t = f(iv(a), iv(b))
    E.assume(z3.Implies(z3.And(iv(a) >= 0, iv(b) >= 0), z3.And(t >= 0, t <= iv(a), t <= iv(b))))
    return SInt(t)

def int_or(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return mkint(iv(a) + iv(b) - iv(int_and(a, b)))
    return mkint(iv(a) + iv(b) - iv(int_and(a, b)))

def int_xor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return mkint(iv(a) + iv(b) - 2 * iv(int_and(a, b)))
    # bitwise xor of two symbolic ints: uninterpreted, commutative by ordering the arguments
    x, y = iv(a), iv(b)
    if x.get_id() > y.get_id():
        x, y = y, x
    t = fun('bitxor', I, I, I)(x, y)
    E = eng()
    E.assume(z3.Implies(z3.And(x >= 0, y >= 0), t >= 0))
    for k in (8, 32, 64, 128):
        E.assume(z3.Implies(z3.And(x >= 0, y >= 0, x < 2 ** k, y < 2 ** k), t < 2 ** k))
    return SInt(t)

def int_shl(a, b):
    if isinstance(b, int):
        return a * (2 ** b)
    raise Unsupported('symbolic shift')

def int_shr(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a >> b
    if isinstance(b, int):
        return int_div(a, 2 ** b)
    raise Unsupported('symbolic shift')

class Flt(object):
    """a float; machine arithmetic is treated as real arithmetic"""
    __slots__ = ('t',)
    def __init__(self, t):
        if isinstance(t, float):
            t = Fraction(t)
        if isinstance(t, Fraction):
            t = z3.RealVal(t)
        self.t = z3.simplify(t)
    @staticmethod
    def of(v):
        if isinstance(v, Flt):
            return v
        if isinstance(v, bool):
            return Flt(Fraction(int(v)))
        if isinstance(v, int):
            return Flt(Fraction(v))
        if isinstance(v, (SInt, SBool)):
            return Flt(z3.ToReal(iv(v)))
        if isinstance(v, float):
            return Flt(v)
        raise Unsupported('not a number: %r' % (v,))
    def const(self):
        if z3.is_rational_value(self.t):
            return Fraction(self.t.numerator_as_long(), self.t.denominator_as_long())
        return None
    def _b(op):
        def f(self, o):
            if not (is_int(o) or isinstance(o, (Flt, float))):
                return NotImplemented
            return Flt(getattr(self.t, op)(Flt.of(o).t))
        return f
    __add__ = _b('__add__'); __radd__ = _b('__radd__')
    __sub__ = _b('__sub__'); __rsub__ = _b('__rsub__')
    __mul__ = _b('__mul__'); __rmul__ = _b('__rmul__')
    def __neg__(self): return Flt(-self.t)
    def __pos__(self): return self
    def __truediv__(self, o):
        o = Flt.of(o)
        if o == 0:
            eng().py_raise('ZeroDivisionError', b'float division')
        return Flt(self.t / o.t)
    def __rtruediv__(self, o): return Flt.of(o).__truediv__(self)
    def _c(op):
        def f(self, o):
            if not (is_int(o) or isinstance(o, (Flt, float))):
                return False if op == '__eq__' else True if op == '__ne__' else NotImplemented
            return mkbool(getattr(self.t, op)(Flt.of(o).t))
        return f
    __eq__ = _c('__eq__'); __ne__ = _c('__ne__')
    __lt__ = _c('__lt__'); __le__ = _c('__le__')
    __gt__ = _c('__gt__'); __ge__ = _c('__ge__')
    __hash__ = None
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return 'Flt(%s)' % self.t

# ---------------------------------------------------------------- opaque values

_intern = {}
def intern_id(v):
    """distinct negative numbers for distinct constants used as identities"""
    k = (type(v).__name__, v) if isinstance(v, (bytes, str, int, bool, type(None), tuple)) else ('id', id(v))
    if isinstance(v, str):
        try:
            k = ('bytes', v.encode('ascii'))    # py2: 'a' == u'a'
        except UnicodeError:
            pass
    if k not in _intern:
        _intern[k] = (-10 ** 6 if k[0] == 'bytes' else -1000) - len(_intern)
        _keep.append(v)
        if k[0] == 'bytes': text_of[_intern[k]] = k[1]
    return _intern[k]
text_of = {}
_keep = []

class SName(object):
    """a byte string that is only compared (a name)"""
    __slots__ = ('t',)
    def __init__(self, t):
        self.t = t
    def __eq__(self, o):
        if isinstance(o, SName):
            return mkbool(self.t == o.t)
        if isinstance(o, (bytes, str)):
            return mkbool(self.t == z3.IntVal(intern_id(o)))
        if isinstance(o, SVal):
            return mkbool(self.t == o.t)
        return False
    def __ne__(self, o):
        return mkbool(z3.Not(bv(self.__eq__(o))))
    __hash__ = None
    def __repr__(self): return 'SName(%s)' % self.t

class SUni(object):
    """a unicode text; only its UTF-8 form is looked at"""
    __slots__ = ('t', 'utf8')
    def __init__(self, t, utf8):
        self.t = t
        self.utf8 = utf8
    def __repr__(self): return 'SUni(%s)' % self.t

class SVal(object):
    """an arbitrary value of unknown type: its identity is a term.
    call: None, or a host function (args, kwargs) -> value, for opaque callables
    attrs: host dict name -> value or host function(SVal) -> value"""
    __slots__ = ('t', 'notnone', 'call', 'attrs', 'typ', 'notfalse')
    def __init__(self, t, notnone=False, call=None, attrs=None, typ=None, notfalse=False):
        self.t = t
        self.notnone = notnone
        self.call = call
        self.attrs = attrs
        self.typ = typ
        self.notfalse = notfalse
    def __eq__(self, o):
        return mkbool(eng().eq_term(self, o))
    def __ne__(self, o):
        return mkbool(z3.Not(bv(self.__eq__(o))))
    __hash__ = None
    def __repr__(self): return 'SVal(%s)' % self.t

class SRef(object):
    """a frozen object described by a schema: fields are functions of its arguments"""
    __slots__ = ('cls', 'schema', 'args', 'cache')
    def __init__(self, schema, args):
        self.schema = schema
        self.args = tuple(args)
    def __repr__(self): return 'SRef(%s,%s)' % (self.schema.name, list(self.args))

class Schema(object):
    """fields: name -> host function(args: tuple of int terms) -> value"""
    def __init__(self, name, cls=None, fields=None, methods=None, facts=None):
        self.name = name
        self.cls = cls
        self.fields = fields or {}
        self.methods = methods or {}
        self.facts = facts
    def make(self, *args):
        args = tuple(iv(a) for a in args)
        if self.facts:
            self.facts(*args)
        return SRef(self, args)

# ---------------------------------------------------------------- heap references

class Ref(object):
    """mutable object; its contents are in the heap of the engine"""
    __slots__ = ('id', 'kind', 'cls', 'frozen', 'live')
    def __init__(self, id, kind, cls):
        self.id = id
        self.kind = kind          # inst, list, dict, set
        self.cls = cls
        self.frozen = False
        self.live = None
    def __repr__(self): return '<%s %s#%s>' % (self.kind, self.cls.name if self.cls else '', self.id)

class ClassV(object):
    def __init__(self, name, bases, ns, module=None, host=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.host = host          # constructor for builtin classes
        self.mro = self._mro()
    def _mro(self):
        # C3 is not needed for the shapes found here, but is simple enough
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported('inconsistent mro')
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        return [self] + merge([b.mro for b in self.bases] + [list(self.bases)])
    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None
    def has(self, name):
        return any(name in c.ns for c in self.mro)
    def subclass_of(self, o):
        return o in self.mro
    def __repr__(self): return '<class %s>' % self.name

class FuncV(object):
    def __init__(self, name, args, body, defaults, glob, closure, cls=None, isgen=False, islambda=False):
        self.name = name
        self.args = args
        self.body = body
        self.defaults = defaults
        self.glob = glob
        self.closure = closure
        self.cls = cls            # class it was defined in (for name mangling)
        self.isgen = isgen
        self.islambda = islambda
        self.attrs = {}
    def __repr__(self): return '<function %s>' % self.name

class BoundV(object):
    def __init__(self, f, self_):
        self.f = f
        self.self_ = self_
    def __repr__(self): return '<bound %r of %r>' % (self.f, self.self_)

class Builtin(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn              # host function(*args, **kwargs)
    def __repr__(self): return '<builtin %s>' % self.name

class ModuleV(object):
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns
    def __repr__(self): return '<module %s>' % self.name

class StaticV(object):
    def __init__(self, f): self.f = f
class ClassMethodV(object):
    def __init__(self, f): self.f = f
class PropertyV(object):
    def __init__(self, fget, fset=None): self.fget = fget; self.fset = fset
class SuperV(object):
    def __init__(self, cls, self_): self.cls = cls; self.self_ = self_
class SliceV(object):
    def __init__(self, a, b, c): self.a = a; self.b = b; self.c = c

class Poison(object):
    """a local whose value at the loop head is not known (yet)"""
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return 'Poison(%s)' % (self.loc,)

class PoisonRead(Exception):
    def __init__(self, loc):
        Exception.__init__(self, loc)
        self.loc = loc

class OStr(object):
    """the opaque result of formatting; a total function of nothing we look at"""
    __slots__ = ('t', 'uni')
    def __init__(self, t): self.t = t
    def __repr__(self): return 'OStr(%s)' % self.t
