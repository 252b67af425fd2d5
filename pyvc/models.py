"""The part of Python 2 and of the libraries that is not code of the repository.

Everything here is trusted: it is checked against Jython by selftest.py, and listed as an assumption."""
import re as _re, struct as _struct, uuid as _uuid, binascii as _binascii, os as _os, math as _math
import z3
from fractions import Fraction
from values import *
import values, engine
from ropes import *

NOOP = lambda *a, **k: None

def E_():
    return eng()

# ---------------------------------------------------------------- installation

EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'StandardError': 'Exception', 'StopIteration': 'Exception', 'Warning': 'Exception',
    'ArithmeticError': 'StandardError', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'FloatingPointError': 'ArithmeticError',
    'LookupError': 'StandardError', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'AttributeError': 'StandardError', 'NameError': 'StandardError', 'UnboundLocalError': 'NameError',
    'TypeError': 'StandardError', 'ValueError': 'StandardError', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError',
    'AssertionError': 'StandardError', 'ImportError': 'StandardError', 'EnvironmentError': 'StandardError',
    'IOError': 'EnvironmentError', 'OSError': 'EnvironmentError', 'RuntimeError': 'StandardError',
    'NotImplementedError': 'RuntimeError', 'SyntaxError': 'StandardError', 'SystemError': 'StandardError',
    'DeprecationWarning': 'Warning', 'UserWarning': 'Warning', 'EOFError': 'StandardError', 'MemoryError': 'StandardError',
    'ReferenceError': 'StandardError',
}

def exc_host(interp, cls, args, kwargs):
    r = interp.E.alloc('inst', cls, {'args': tuple(args)})
    init = cls.lookup('__init__')
    if init is not None:
        interp.call(BoundV(init, r), args, kwargs)
    return r

def install(I_):
    b = I_.builtins = {}
    I_.OBJECT = ClassV('object', [], {})
    def cls(name, host=None, bases=None):
        c = ClassV(name, bases if bases is not None else [I_.OBJECT], {}, None, host)
        return c
    I_.TYPE = cls('type', type_host)
    I_.NONETYPE = cls('NoneType')
    I_.INT = cls('int', int_host)
    I_.LONG = cls('long', int_host)
    I_.BOOL = cls('bool', bool_host, [I_.INT])
    I_.FLOAT = cls('float', float_host)
    I_.BASESTRING = cls('basestring')
    I_.STR = cls('str', str_host, [I_.BASESTRING])
    I_.UNICODE = cls('unicode', unicode_host, [I_.BASESTRING])
    I_.TUPLE = cls('tuple', tuple_host)
    I_.LIST = cls('list', list_host)
    I_.DICT = cls('dict', dict_host)
    I_.SET = cls('set', set_host)
    I_.FROZENSET = cls('frozenset', set_host)
    I_.FUNCTION = cls('function')
    I_.METHOD = cls('instancemethod')
    I_.BUILTINFN = cls('builtin_function_or_method')
    I_.MODULE = cls('module')
    I_.OPAQUE = cls('opaque')
    I_.ITER = cls('iterator')
    I_.FILE = cls('file', file_host)
    for c in ('OBJECT', 'TYPE', 'INT', 'LONG', 'BOOL', 'FLOAT', 'BASESTRING', 'STR', 'UNICODE', 'TUPLE', 'LIST', 'DICT', 'SET',
              'FROZENSET', 'FILE'):
        k = getattr(I_, c)
        b[k.name] = k
    b['None'] = None; b['True'] = True; b['False'] = False
    b['NotImplemented'] = NotImplemented; b['Ellipsis'] = Ellipsis
    todo = dict(EXC)
    while todo:
        for n, p in list(todo.items()):
            if p is None or p in b:
                c = ClassV(n, [b[p]] if p else [I_.OBJECT], {}, None, exc_host)
                c.builtin_exc = True
                if p is None:
                    def init(self_, *a):
                        d = dict(I_.E.heap[self_.id]); d['args'] = tuple(a); I_.E.heap[self_.id] = d
                    f = Builtin('__init__', init); f.method = True
                    c.ns['__init__'] = f
                    g = Builtin('__str__', lambda self_: exc_str(I_, self_)); g.method = True
                    c.ns['__str__'] = g
                b[n] = c
                del todo[n]
    # host must only construct: subclasses defined in the repository inherit it through the mro
    b['property'] = cls('property', lambda i, c, a, k: PropertyV(*a, **k))
    b['staticmethod'] = cls('staticmethod', lambda i, c, a, k: StaticV(a[0]))
    b['classmethod'] = cls('classmethod', lambda i, c, a, k: ClassMethodV(a[0]))
    b['super'] = cls('super', lambda i, c, a, k: SuperV(a[0], a[1]))
    b['slice'] = cls('slice', lambda i, c, a, k: SliceV(*((None, a[0], None) if len(a) == 1 else (list(a) + [None])[:3])))
    def reg(name, fn):
        b[name] = Builtin(name, lambda *a, **k: fn(I_, *a, **k))
    for n, f in BUILTINS.items():
        reg(n, f)
    sp = Builtin('locals', None)
    sp.special = lambda i, e, fr: i.E.new_dict([(k.encode(), v) for k, v in fr.locals.items()])
    b['locals'] = sp
    sg = Builtin('globals', None)
    sg.special = lambda i, e, fr: i.E.new_dict([(k.encode(), v) for k, v in fr.glob.ns.items()])
    b['globals'] = sg
    I_.E.py_raise = I_.py_raise

def exc_str(interp, v):
    a = interp.E.heap[v.id].get('args', ())
    if len(a) == 0:
        return b''
    if len(a) == 1:
        return to_str(interp, a[0])
    return ostr()

def ostr(name='ostr'):
    return OStr(eng().fresh(name, values.I))

# ---------------------------------------------------------------- constructors

def type_host(interp, cls, a, k):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, SVal) and v.typ is None:
            return SVal(fun('typeof', values.I, values.I)(v.t), notnone=True)
        return interp.type_of(v)
    name, bases, ns = a
    return ClassV(name.decode(), list(bases), dict((kk.decode(), v) for kk, v in dict_items(interp, ns)), None)

def int_host(interp, cls, a, k):
    if not a: return 0
    v = a[0]
    if isinstance(v, bool): return int(v)
    if isinstance(v, (int, SInt)): return v
    if isinstance(v, SBool): return mkint(iv(v))
    if isinstance(v, Flt):
        c = v.const()
        if c is not None: return int(c)
        t = v.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    base = a[1] if len(a) > 1 else k.get('base', 10)
    if isinstance(v, (bytes, str)) and isinstance(base, int):
        return atoi(interp, v, base)
    if isinstance(v, (Rope, OStr, SName, SUni)):
        return opaque_int(interp, v, base)
    if isinstance(v, Ref) and v.kind == 'inst' and v.cls.lookup('__int__'):
        return interp.call(BoundV(v.cls.lookup('__int__'), v), [], {})
    if isinstance(v, SVal):
        if interp.E.choose('int_err', 2): interp.py_raise(('TypeError', 'ValueError')[interp.E.choose('int_err2', 2)], b'int()')
        return SInt(fun('int_of', values.I, values.I)(v.t))
    interp.py_raise('TypeError', b'int() argument must be a string or a number')

def opaque_int(interp, v, base):
    """int(text): ValueError iff the text is no number"""
    E = interp.E
    t = text_ident(v)
    if not E.decide(fun('isnum_%s' % base, values.I, values.B)(t)):
        interp.py_raise('ValueError', b'invalid literal for int()')
    return SInt(fun('num_%s' % base, values.I, values.I)(t))

def text_ident(v):
    E = eng()
    if isinstance(v, Rope):
        if len(v.segs) == 1 and isinstance(v.segs[0], AT):
            s = v.segs[0]
            return fun('ident_' + s.atom.fname, *([values.I] * (len(s.atom.args) + 3)))(*(s.atom.args + (iv(s.off), iv(s.ln))))
        raise Unsupported('identity of a composed string')
    return E.ident(v)

def atoi(interp, v, base=10):
    s = v.decode('latin-1') if isinstance(v, bytes) else v
    s = s.strip().rstrip('lL') if base in (0, 16, 10) else s.strip()
    try:
        if base == 0:
            t = s.lower().lstrip('+-')
            neg = s.startswith('-')
            if t.startswith('0x'): n = int(t, 16)
            elif t.startswith('0b'): n = int(t, 2)
            elif t.startswith('0o'): n = int(t[2:], 8)
            elif t.startswith('0') and len(t) > 1: n = int(t, 8)
            else: n = int(t, 10)
            return -n if neg else n
        return int(s, base)
    except ValueError:
        interp.py_raise('ValueError', ('invalid literal for int() with base %d: %r' % (base, s)).encode('latin-1', 'replace'))

def bool_host(interp, cls, a, k):
    if not a: return False
    v = a[0]
    if isinstance(v, (bool, SBool)): return v
    if isinstance(v, SInt): return v != 0
    return interp.truth(v)

def float_host(interp, cls, a, k):
    if not a: return Flt(Fraction(0))
    v = a[0]
    if isinstance(v, Flt): return v
    if is_int(v): return Flt.of(v)
    if isinstance(v, (bytes, str)):
        s = v.decode('latin-1') if isinstance(v, bytes) else v
        try:
            f = float(s.strip()) if '_' not in s else float('x')
            return Flt(Fraction(repr(f)) if f == f and f not in (float('inf'), float('-inf')) else _special_float(f))
        except ValueError:
            interp.py_raise('ValueError', ('invalid literal for float(): %s' % s).encode('latin-1', 'replace'))
    if isinstance(v, (Rope, OStr, SName, SUni)):
        E = interp.E
        t = text_ident(v)
        if not E.decide(fun('isfloat', values.I, values.B)(t)):
            interp.py_raise('ValueError', b'invalid literal for float()')
        return Flt(fun('floatof', values.I, values.R)(t))
    if isinstance(v, SVal):
        if interp.E.choose('float_err', 2): interp.py_raise(('TypeError', 'ValueError')[interp.E.choose('float_err2', 2)], b'float()')
        return Flt(fun('float_of', values.I, values.R)(v.t))
    if isinstance(v, Ref) and v.kind == 'inst' and v.cls.lookup('__float__'):
        return interp.call(BoundV(v.cls.lookup('__float__'), v), [], {})
    interp.py_raise('TypeError', b'float() argument must be a string or a number')

def _special_float(f):
    raise Unsupported('special float')

def to_str(interp, v):
    if isinstance(v, (bytes, Rope, OStr, SName)): return v
    if isinstance(v, str):
        try: return v.encode('ascii')
        except UnicodeError: interp.py_raise('UnicodeEncodeError', b'ascii')
    if v is None: return b'None'
    if isinstance(v, bool): return b'True' if v else b'False'
    if isinstance(v, int): return str(v).encode()
    if isinstance(v, SInt):
        E = interp.E
        # a small range is split into its values, so that formats built from it are known
        if E.valid(z3.And(v.t >= 0, v.t <= 24), full=False)[0] == 'unsat':
            for i in range(24):
                if v == i: return str(i).encode()
            return b'24'
        return OStr(fun('str_int', values.I, values.I)(v.t))
    if isinstance(v, Ref) and v.kind == 'inst':
        for m in ('__str__', '__repr__'):
            f = v.cls.lookup(m)
            if f is not None:
                return interp.call(BoundV(f, v), [], {})
        return ostr()
    if isinstance(v, UuidV):
        return v.text(interp)
    if isinstance(v, SVal):
        return OStr(fun('str_of', values.I, values.I)(v.t))
    if isinstance(v, Ref) and v.kind in ('list', 'dict', 'set'):
        return py_repr(interp, v)
    if isinstance(v, tuple):
        return py_repr(interp, v)
    return ostr()

def str_host(interp, cls, a, k):
    if not a: return b''
    return to_str(interp, a[0])

def unicode_host(interp, cls, a, k):
    if not a: return ''
    v = a[0]
    if isinstance(v, str): return v
    if isinstance(v, SUni): return v
    if isinstance(v, bytes):
        try: return v.decode(a[1].decode() if len(a) > 1 else 'ascii')
        except UnicodeError: interp.py_raise('UnicodeDecodeError', b'ascii')
    if isinstance(v, int): return str(v)
    E = interp.E
    return SUni(E.fresh('uni', values.I), E.fresh_str('utf8'))

def tuple_host(interp, cls, a, k):
    if not a: return ()
    s = to_seq(interp, a[0])
    if isinstance(s, LRope):
        c = s.concrete()
        if c is None:
            n = s.length()
            if isinstance(n, int): return tuple(s.at(i) for i in range(n))
            return tup_ref(interp, s)
        return tuple(c)
    return tuple(s)

def tup_ref(interp, s):
    """a tuple whose length is not known: contents like a list, never written"""
    c = s.concrete()
    if c is not None: return tuple(c)
    return interp.E.alloc('list', interp.TUPLE, s)

def is_tup(v): return isinstance(v, Ref) and v.kind == 'list' and v.cls is eng().interp.TUPLE
TUP_M = ('__len__', '__contains__', '__getitem__', '__iter__', 'index', 'count')

def list_host(interp, cls, a, k):
    if not a: return interp.E.new_list()
    s = to_seq(interp, a[0])
    return interp.E.new_list(s if isinstance(s, LRope) else tuple(s))

def dict_host(interp, cls, a, k):
    d = interp.E.new_dict()
    if cls is not interp.DICT:
        d.cls = cls
    if a:
        dict_update(interp, d, a[0])
    for n, v in k.items():
        setitem(interp, d, n.encode(), v)
    return d

def set_host(interp, cls, a, k):
    r = interp.E.alloc('set', cls, ())
    if a:
        s = to_seq(interp, a[0])
        if isinstance(s, LRope):
            if s.concrete() is None: raise Unsupported('set of unknown length')
            s = s.concrete()
        for x in s:
            set_add(interp, r, x)
    return r

def set_add(interp, r, x):
    c = interp.E.heap[r.id]
    for y in c:
        if interp.truth(interp.py_eq(x, y)): return
    interp.putcontent(r, c + (x,))

def file_host(interp, cls, a, k):
    return open_(interp, *a, **k)

def open_(interp, name, mode=b'r', *a):
    if not isinstance(name, bytes): raise Unsupported('open')
    p = name.decode()
    if b'w' in mode or b'a' in mode: raise Unsupported('open for writing')
    try:
        data = open(p, 'rb').read()
    except (IOError, OSError):
        interp.py_raise('IOError', 2, b'No such file or directory')
    return make_file(interp, data)

def make_file(interp, data):
    if b'b' and b'\r\n' in data: data = data       # Jython on Linux keeps \r\n, as CPython does
    lines = tuple(data.splitlines(True)) if b'\r' not in data else tuple(x + b'\n' for x in data.split(b'\n')[:-1]) + \
        ((data.split(b'\n')[-1],) if data.split(b'\n')[-1] else ())
    return interp.E.alloc('file', interp.FILE, (lines, 0))

# ---------------------------------------------------------------- builtin functions

def b_len(interp, v):
    if isinstance(v, (bytes, str, tuple)): return len(v)
    if isinstance(v, Rope): return v.length()
    if isinstance(v, Ref):
        c = interp.E.heap[v.id]
        if v.kind == 'list': return c.length()
        if v.kind == 'dict': return dict_len(interp, v)
        if v.kind == 'set': return len(c)
        if v.kind == 'inst':
            f = v.cls.lookup('__len__')
            if f is not None: return interp.call(BoundV(f, v), [], {})
        interp.py_raise('TypeError', b'object has no len()')
    if isinstance(v, (OStr, SUni)):
        t = fun('len_text', values.I, values.I)(v.t)
        interp.E.fact(t >= 0)
        return SInt(t)
    if isinstance(v, SVal):
        if v.attrs is not None and '__len__' in v.attrs: return v.attrs['__len__'](v)
        if interp.E.decide(fun('haslen', values.I, values.B)(v.t)):
            t = fun('len_val', values.I, values.I)(v.t)
            interp.E.fact(t >= 0)
            return SInt(t)
        interp.py_raise('TypeError', b'object has no len()')
    if isinstance(v, Poison): raise PoisonRead(v.loc)
    if hasattr(v, 'py_len'): return v.py_len(interp)
    interp.py_raise('TypeError', b'object has no len()')

def b_ord(interp, c):
    if isinstance(c, bytes) and len(c) == 1: return c[0]
    if isinstance(c, str) and len(c) == 1: return ord(c)
    if isinstance(c, Rope):
        n = c.length()
        if not (n == 1 if not isinstance(n, int) else n == 1):
            interp.py_raise('TypeError', b'ord() expected a character')
        return mkint(index_str(c, 0))
    interp.py_raise('TypeError', b'ord() expected a character')

def b_chr(interp, n):
    if isinstance(n, int):
        if not 0 <= n < 256: interp.py_raise('ValueError', b'chr() arg not in range(256)')
        return bytes([n])
    if isinstance(n, (SInt, SBool)):
        n = mkint(iv(n))
        if isinstance(n, int): return b_chr(interp, n)
        if not interp.truth(SBool(z3.And(n.t >= 0, n.t < 256))):
            interp.py_raise('ValueError', b'chr() arg not in range(256)')
        return norm([BT(n.t)])
    interp.py_raise('TypeError', b'an integer is required')

def b_range(interp, *a):
    for x in a:
        if isinstance(x, Flt) or not is_int(x): interp.py_raise('TypeError', b'range() integer arguments expected')
    a = [mkint(iv(x)) if isinstance(x, SBool) else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    E = interp.E
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if st == 0: interp.py_raise('ValueError', b'range() step argument must not be zero')
        n = len(range(lo, hi, st))
        if n <= 4096:
            return E.new_list(tuple(range(lo, hi, st)))
        return E.new_list(LRope([GS(Gen(lambda i: mkint(lo + iv(i) * st), (), None, 'rng%d_%d' % (lo, st)), 0, n)]))
    if isinstance(st, int) and st != 0:
        d = sub(hi, lo) if st > 0 else sub(lo, hi)
        s = abs(st)
        if not (d > 0):
            return E.new_list()
        n = d if s == 1 else mkint((iv(d) + (s - 1)) / s)
        if isinstance(lo, int) and lo == 0 and st == 1:
            g = Gen(ident_fn, (), None, 'rng')
        else:
            g = Gen(lambda l, i, st=st: mkint(l + iv(i) * st), (iv(lo),), None, 'rngs%d' % st)
        return E.new_list(LRope([GS(g, 0, n)]))
    raise Unsupported('range with unknown step')

def ident_fn(i):
    return i

def b_isinstance(interp, v, c): return interp.isinstance_(v, c)
def b_issubclass(interp, c, d):
    if isinstance(d, tuple): return any(c.subclass_of(x) for x in d)
    return c.subclass_of(d)

def b_callable(interp, v):
    if isinstance(v, (FuncV, BoundV, Builtin, ClassV)): return True
    if isinstance(v, Ref) and v.kind == 'inst': return v.cls.lookup('__call__') is not None
    if isinstance(v, SVal):
        if v.call is not None: return True
        if v.typ is None and v.attrs is None: return interp.E.decide(fun('callable', values.I, values.B)(v.t))
        return False
    return hasattr(v, 'py_call')

def name_of(interp, n):
    if isinstance(n, bytes): return n.decode('latin-1')
    if isinstance(n, str): return n
    raise Unsupported('symbolic attribute name')

def b_hasattr(interp, v, n):
    n = name_of(interp, n)
    if isinstance(v, SVal) and v.attrs is None and v.typ is None:
        return interp.E.decide(fun('hasattr_' + n, values.I, values.B)(v.t))
    try:
        interp.getattr(v, n)
        return True
    except PyExc as e:
        if e.value.cls.subclass_of(interp.builtins['Exception']): return False
        raise

def b_getattr(interp, v, n, *d):
    n = name_of(interp, n)
    if d: return interp.getattr(v, n, d[0])
    return interp.getattr(v, n)

def b_setattr(interp, v, n, x): interp.setattr(v, name_of(interp, n), x)
def b_delattr(interp, v, n):
    n = name_of(interp, n)
    d = dict(interp.E.heap[v.id])
    if n not in d: interp.py_raise('AttributeError', n.encode())
    del d[n]
    interp.E.heap[v.id] = d
    for w in interp.E.wstack: w.add(('f', v.id, n))

def b_iter(interp, v):
    if isinstance(v, Ref) and v.kind in ('iter', 'file'): return v
    s = to_seq(interp, v)
    return IterV(interp, s if isinstance(s, LRope) else lrope(tuple(s)), v)

def b_next(interp, it, *d):
    try:
        return iter_next(interp, it)
    except PyExc as e:
        if d and e.value.cls.name == 'StopIteration': return d[0]
        raise

def iter_next(interp, it):
    if isinstance(it, Ref) and it.kind in ('iter', 'file'):
        check_live(interp, it)
        s, p = interp.E.heap[it.id]
        if isinstance(s, tuple):
            if p >= len(s): interp.py_raise('StopIteration')
            interp.putcontent(it, (s, p + 1))
            return s[p]
        if not interp.truth(p < s.length()) if not (isinstance(p, int) and isinstance(s.length(), int)) else p >= s.length():
            interp.py_raise('StopIteration')
        interp.putcontent(it, (s, add(p, 1)))
        return s.at(p)
    return interp.call(interp.getattr(it, 'next'), [], {})

def IterV(interp, s, src=None):
    """src: the object it runs over, which must not change until it is used up"""
    if not isinstance(s, LRope): s = lrope(tuple(s))
    r = interp.E.alloc('iter', interp.ITER, (s, 0))
    r.live = live_of(interp, src)
    return r

def live_of(interp, *src):
    out = []
    for o in src:
        if isinstance(o, Ref) and o.kind in ('list', 'dict', 'set'): out.append((o, interp.E.heap[o.id]))
        elif isinstance(o, Ref) and o.kind == 'iter' and o.live: out += o.live
    return out

def check_live(interp, it):
    """python looks at the live object at each step; here it is read once, so it must not have changed"""
    import loops
    for o, c in it.live or ():
        d = interp.E.heap[o.id]
        if d is c or loops.same_val(d, c): continue
        if o.kind == 'dict' and isinstance(c, DRep) and isinstance(d, DRep) and c.base is d.base and not d.dead and not c.dead and \
                len(c.entries) == len(d.entries) and all(loops.same_val(x[0], y[0]) for x, y in zip(c.entries, d.entries)):
            continue
        raise Unsupported('a %s is changed while it is iterated over' % o.kind)

def host_items(interp, v):
    s = to_seq(interp, v)
    if isinstance(s, LRope):
        c = s.concrete()
        if c is None:
            n = s.length()
            if isinstance(n, int) and n <= 256: return [s.at(i) for i in range(n)]
            raise Unsupported('unknown number of items')
        return list(c)
    return list(s)

def map_rope(s, f, what):
    """f(position, item) for every item"""
    if not isinstance(s, LRope): s = lrope(tuple(s))
    out = []
    pos = 0
    for g in s.segs:
        if isinstance(g, ES): out.append(ES(tuple(f(add(pos, k), x) for k, x in enumerate(g.items))))
        elif isinstance(g, GS): out.append(GS(Gen(lambda i, g=g, pos=pos: f(add(pos, i), g.at(i))), 0, g.ln))
        else: raise Unsupported(what + ' over a folded list')
        pos = add(pos, g.length())
    return LRope(out)

def b_enumerate(interp, v, start=0):
    return IterV(interp, map_rope(to_seq(interp, v), lambda i, x: (add(start, i), x), 'enumerate'), v)

def b_zip(interp, *a):
    seqs = [to_seq(interp, x) for x in a]
    seqs = [s if isinstance(s, LRope) else lrope(tuple(s)) for s in seqs]
    if not seqs: return interp.E.new_list()
    if all(s.concrete() is not None for s in seqs):
        return interp.E.new_list(tuple(zip(*[s.concrete() for s in seqs])))
    n = None
    for k, s in enumerate(seqs):
        ln = s.length()
        if n is None: n, best = ln, k
        elif isinstance(ln, int) and isinstance(n, int):
            if ln < n: n, best = ln, k
        elif interp.truth(ln < n): n, best = ln, k
    if isinstance(n, int) and n <= 64:
        return interp.E.new_list(tuple(tuple(s.at(i) for s in seqs) for i in range(n)))
    def pair(i, x):
        return tuple(x if k == best else s.at(i) for k, s in enumerate(seqs))
    for k, s in enumerate(seqs):
        if k != best and len(s.segs) != 1: raise Unsupported('zip of pieced lists')
    return interp.E.new_list(map_rope(seqs[best], pair, 'zip'))

def host_for(interp, seq, fn, orelse=lambda: None):
    """run fn(x) for every item; fn may raise BreakX"""
    from interp import Frame
    loc = [None]
    def bind(x): loc[0] = x
    interp.for_loop(seq, bind, lambda: fn(loc[0]), orelse, Frame(None, {}))

def b_map(interp, f, *a):
    out = interp.E.new_list()
    if len(a) == 1:
        host_for(interp, a[0], lambda x: list_append(interp, out, x if f is None else interp.call(f, [x], {})))
        return out
    its = [host_items(interp, x) for x in a]
    n = max(len(x) for x in its)
    for i in range(n):
        list_append(interp, out, interp.call(f, [x[i] if i < len(x) else None for x in its], {}))
    return out

def b_filter(interp, f, a):
    out = interp.E.new_list()
    def body(x):
        if interp.truth(x if f is None else interp.call(f, [x], {})): list_append(interp, out, x)
    host_for(interp, a, body)
    if isinstance(a, tuple) or is_tup(a): return tuple_host(interp, None, [out], {})
    if is_bytes(a): return str_join(interp, b'', out)
    return out

def b_reduce(interp, f, a, *d):
    its = host_items(interp, a)
    if d: r = d[0]
    else:
        if not its: interp.py_raise('TypeError', b'reduce() of empty sequence')
        r = its.pop(0)
    for x in its: r = interp.call(f, [r, x], {})
    return r

def b_minmax(less):
    def f(interp, *a, **k):
        key = k.get('key')
        its = host_items(interp, a[0]) if len(a) == 1 else list(a)
        if not its: interp.py_raise('ValueError', b'empty sequence')
        kf = (lambda x: x) if key is None else (lambda x: interp.call(key, [x], {}))
        r = its[0]
        for x in its[1:]:
            if interp.truth(interp.compare('Lt' if less else 'Gt', kf(x), kf(r))): r = x
        return r
    return f

def b_sum(interp, a, start=0):
    r = start
    for x in host_items(interp, a): r = interp.binop('Add', r, x)
    return r

def b_abs(interp, v):
    if isinstance(v, int): return abs(v)
    if isinstance(v, SInt): return mkint(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, Flt): return Flt(z3.If(v.t >= 0, v.t, -v.t))
    raise Unsupported('abs')

def b_any(interp, a):
    r = [True]
    def body(x):
        if interp.truth(x): raise interp.BreakX()
    def orelse(): r[0] = False
    host_for(interp, a, body, orelse)
    return r[0]
def b_all(interp, a):
    r = [False]
    def body(x):
        if not interp.truth(x): raise interp.BreakX()
    def orelse(): r[0] = True
    host_for(interp, a, body, orelse)
    return r[0]

def b_sorted(interp, a, cmp=None, key=None, reverse=False):
    its = host_items(interp, a)
    if cmp is not None: raise Unsupported('sorted with cmp')
    kf = (lambda x: x) if key is None else (lambda x: interp.call(key, [x], {}))
    out = []
    for x in its:         # insertion sort, stable
        i = len(out)
        while i > 0 and interp.truth(interp.compare('Lt', kf(x), kf(out[i - 1]))): i -= 1
        out.insert(i, x)
    if interp.truth(reverse): out.reverse()
    return interp.E.new_list(tuple(out))

def b_reversed(interp, a):
    s = to_seq(interp, a)
    if isinstance(s, LRope): return IterV(interp, reverse_l(s), a)
    return IterV(interp, lrope(tuple(reversed(s))), a)

def reverse_l(s):
    out = []
    for g in reversed(s.segs):
        if isinstance(g, ES): out.append(ES(tuple(reversed(g.items))))
        elif isinstance(g, GS): out.append(GS(Gen(lambda i, g=g: g.at(sub(sub(g.ln, 1), i))), 0, g.ln))
        else: raise Unsupported('reverse of a folded list')
    return LRope(out)

def b_divmod(interp, a, b): return (interp.binop('FloorDiv', a, b), interp.binop('Mod', a, b))
def b_hash(interp, v):
    if is_tup(v): return SInt(interp.E.fresh('hash', values.I))
    if isinstance(v, Ref) and v.kind in ('list', 'dict', 'set'): interp.py_raise('TypeError', b'unhashable type')
    if isinstance(v, Ref) and v.kind == 'inst' and v.cls.lookup('__hash__'):
        return interp.call(BoundV(v.cls.lookup('__hash__'), v), [], {})
    return SInt(fun('hash_of', values.I, values.I)(interp.E.ident(v)) if not isinstance(v, tuple) else interp.E.fresh('hash', values.I))
def b_id(interp, v): return SInt(interp.E.ident(v))
def b_round(interp, v, n=0):
    raise Unsupported('round')
def b_pow(interp, a, b): return interp.binop('Pow', a, b)
def b_hex(interp, a): return ('0x%x' % a).encode() if isinstance(a, int) else ostr()
def b_repr(interp, v): return py_repr(interp, v)
def b_unichr(interp, v):
    if isinstance(v, int): return chr(v)
    raise Unsupported('unichr')
def b_cmp(interp, a, b):
    if interp.truth(interp.py_eq(a, b)): return 0
    return -1 if interp.truth(interp.compare('Lt', a, b)) else 1
def b_vars(interp, v): return interp.getattr(v, '__dict__')
def b_dir(interp, *a): raise Unsupported('dir')

BUILTINS = {'len': b_len, 'ord': b_ord, 'chr': b_chr, 'range': b_range, 'xrange': b_range, 'isinstance': b_isinstance,
            'issubclass': b_issubclass, 'callable': b_callable, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr,
            'delattr': b_delattr, 'iter': b_iter, 'next': b_next, 'enumerate': b_enumerate, 'zip': b_zip, 'map': b_map,
            'filter': b_filter, 'reduce': b_reduce, 'min': b_minmax(True), 'max': b_minmax(False), 'sum': b_sum, 'abs': b_abs,
            'any': b_any, 'all': b_all, 'sorted': b_sorted, 'reversed': b_reversed, 'divmod': b_divmod, 'hash': b_hash, 'id': b_id,
            'round': b_round, 'pow': b_pow, 'hex': b_hex, 'repr': b_repr, 'unichr': b_unichr, 'open': open_, 'cmp': b_cmp,
            'vars': b_vars, 'dir': b_dir}

def py_repr(interp, v):
    if isinstance(v, bytes):
        return repr(v)[1:].encode('latin-1')
    if isinstance(v, str): return ('u' + ascii(v)).encode()
    if v is None or isinstance(v, (bool, int)): return to_str(interp, v)
    if isinstance(v, Ref) and v.kind == 'inst':
        f = v.cls.lookup('__repr__')
        if f is not None: return interp.call(BoundV(f, v), [], {})
        return ostr()
    # containers show their items; user code may run there
    if isinstance(v, tuple):
        for x in v: py_repr(interp, x)
    elif isinstance(v, Ref) and v.kind == 'list':
        c = interp.E.heap[v.id].concrete()
        for x in c or (): py_repr(interp, x)
    elif isinstance(v, Ref) and v.kind == 'dict' and isinstance(interp.E.heap[v.id], DRep):
        for k, x in interp.E.heap[v.id].entries: py_repr(interp, x)
    return ostr()

# ---------------------------------------------------------------- sequences

def to_seq(interp, it):
    if isinstance(it, tuple): return list(it)
    if isinstance(it, bytes):
        return [it[i:i + 1] for i in range(len(it))]
    if isinstance(it, str): return list(it)
    if isinstance(it, LRope): return it
    if isinstance(it, Rope):
        out = []
        for s in it.segs:
            if isinstance(s, CB): out.append(ES([s.b[i:i + 1] for i in range(len(s.b))]))
            elif isinstance(s, BT): out.append(ES([norm([s])]))
            elif isinstance(s, AT):
                out.append(GS(chars_gen(s), s.off, s.ln))
            elif isinstance(s, RS): out.append(GS(Gen(lambda i, s=s: norm([BT(s.t)])), 0, s.n))
            else:
                out.append(FL(Gen(lambda i, s=s: _as_l(interp, s.gen(i))), s.n))
        return LRope(out)
    if isinstance(it, Ref):
        c = interp.E.heap[it.id]
        if it.kind == 'list': return c
        if it.kind == 'dict': return dict_keys(interp, it)
        if it.kind == 'set': return list(c)
        if it.kind in ('iter', 'file'):
            s, p = c
            if isinstance(s, tuple):
                interp.putcontent(it, (s, len(s)))
                return list(s[p:])
            if isinstance(p, int) and p == 0:
                interp.putcontent(it, (LRope(), 0))
                return s
            n = s.length()
            interp.putcontent(it, (s, n))
            return s.slice(p, n)
        if it.kind == 'inst':
            f = it.cls.lookup('__iter__')
            if f is not None:
                r = interp.call(BoundV(f, it), [], {})
                if isinstance(r, Ref) and r.id == it.id: raise Unsupported('user iterator')
                return to_seq(interp, r)
            interp.py_raise('TypeError', b'object is not iterable')
    if isinstance(it, SVal):
        if it.attrs is not None and '__seq__' in it.attrs: return it.attrs['__seq__'](it)
        raise Unsupported('iteration over an unknown value')
    if isinstance(it, SRef):
        f = it.schema.fields.get('__seq__')
        if f is not None: return f(*it.args)
    if hasattr(it, 'py_seq'): return it.py_seq(interp)
    if isinstance(it, Poison): raise PoisonRead(it.loc)
    if isinstance(it, (SUni, OStr, SName)): raise Unsupported('iteration over an unknown text')
    interp.py_raise('TypeError', b'object is not iterable')

_chars = {}
def chars_gen(s):
    k = (s.atom.key())
    g = _chars.get(k)
    if g is None or g[1] is not eng():
        atom = s.atom
        if atom.args:
            fname, ln = atom.fname, atom._len
            g = Gen(lambda *a: norm([BT(Atom(fname, a[:-1], None).at(a[-1]))]), atom.args, None, 'ch_' + atom.fname)
        else:
            g = Gen(lambda i: norm([BT(atom.at(i))]), (), None, 'ch_' + atom.fname)
        _chars[k] = (g, eng(), [a for a in atom.args])
    else:
        pass
    return _chars[k][0]

def _as_l(interp, v):
    s = to_seq(interp, v)
    return s if isinstance(s, LRope) else lrope(tuple(s))

def list_append(interp, l, x):
    if l.frozen: raise Unsupported('a copied loop object is modified')
    c = interp.E.heap[l.id]
    interp.putcontent(l, c.plus(ES([x]) and LRope([ES([x])])))

def list_extend(interp, l, v):
    s = to_seq(interp, v)
    if not isinstance(s, LRope): s = lrope(tuple(s))
    interp.putcontent(l, interp.E.heap[l.id].plus(s))

def norm_index(interp, n, i, what=b'list index out of range'):
    if isinstance(i, SBool): i = mkint(iv(i))
    if isinstance(i, bool): i = int(i)
    if not isinstance(i, (int, SInt)):
        if isinstance(i, Ref) or i is None or isinstance(i, (bytes, str, tuple, Rope, Flt)):
            interp.py_raise('TypeError', b'indices must be integers')
        raise Unsupported('index %r' % (i,))
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n: interp.py_raise('IndexError', what)
        return j
    if interp.truth(i < 0): i = add(i, n)
    ok = z3.And(iv(i) >= 0, iv(i) < iv(n))
    if not interp.E.decide(ok): interp.py_raise('IndexError', what)
    return i

def slice_bounds(interp, n, s):
    if s.c is not None and not (isinstance(s.c, int) and s.c == 1):
        return None
    for x in (s.a, s.b):
        if x is not None and not is_int(x):
            interp.py_raise('TypeError', b'slice indices must be integers or None')
    a = clamp(n, s.a, 0)
    b = clamp(n, s.b, n)
    return a, b

def getitem(interp, o, i):
    E = interp.E
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(i, Poison): raise PoisonRead(i.loc)
    if isinstance(o, (bytes, Rope)):
        if isinstance(i, SliceV):
            if i.c is not None and not (isinstance(i.c, int) and i.c == 1):
                if isinstance(o, bytes) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)): return o[i.a:i.b:i.c]
                if isinstance(o, Rope) and isinstance(o.length(), int) and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    return norm([BT(index_str(o, k)) for k in range(o.length())[i.a:i.b:i.c]])
                raise Unsupported('slice with a step')
            for x in (i.a, i.b):
                if x is not None and not is_int(x): interp.py_raise('TypeError', b'slice indices must be integers')
            return slice_str(o, i.a, i.b)
        n = str_len(o)
        j = norm_index(interp, n, i, b'string index out of range')
        if isinstance(o, bytes) and isinstance(j, int): return o[j:j + 1]
        return norm([BT(index_str(o, j))])
    if isinstance(o, str):
        if isinstance(i, SliceV): return o[i.a:i.b:i.c]
        return o[norm_index(interp, len(o), i)]
    if isinstance(o, tuple):
        if isinstance(i, SliceV):
            if not all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)): raise Unsupported('tuple slice')
            return o[i.a:i.b:i.c]
        j = norm_index(interp, len(o), i, b'tuple index out of range')
        if isinstance(j, int): return o[j]
        for k in range(len(o) - 1):
            if interp.truth(j == k): return o[k]
        return o[-1]
    if isinstance(o, Ref):
        c = E.heap[o.id]
        if o.kind == 'list':
            if isinstance(i, SliceV):
                con = c.concrete()
                mk = (lambda x: tup_ref(interp, x if isinstance(x, LRope) else lrope(tuple(x)))) if is_tup(o) else E.new_list
                if con is not None and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    return mk(tuple(con[i.a:i.b:i.c]))
                if i.a is None and i.b is None and i.c is None: return mk(c)
                if i.a is None and i.b is None and i.c == -1: return mk(reverse_l(c))
                ab = slice_bounds(interp, c.length(), i)
                if ab is None: raise Unsupported('slice with a step')
                if not interp.truth(ab[0] < ab[1]): return mk(())
                return mk(c.slice(*ab))
            j = norm_index(interp, c.length(), i)
            return c.at(j)
        if o.kind == 'dict':
            if isinstance(c, DRep) or isinstance(c, LogRep):
                f, v = dict_lookup(interp, c, i, o)
                if f: return v
                m = o.cls.lookup('__missing__') if o.cls else None
                if m is not None: return interp.call(BoundV(m, o), [i], {})
                interp.py_raise('KeyError', i)
        if o.kind == 'inst':
            f = o.cls.lookup('__getitem__')
            if f is not None: return interp.call(BoundV(f, o), [i], {})
        interp.py_raise('TypeError', b'object is not subscriptable')
    if isinstance(o, SRef):
        f = o.schema.methods.get('__getitem__')
        if f is not None: return f(o, i)
        if o.schema.cls is not None and o.schema.cls.lookup('__getitem__'):
            return interp.call(BoundV(o.schema.cls.lookup('__getitem__'), o), [i], {})
    if isinstance(o, SVal):
        if o.attrs is not None and '__getitem__' in o.attrs: return o.attrs['__getitem__'](o, i)
        if o.attrs is None and o.typ is None:
            return opaque_op(interp, 'getitem', o, i)
    if hasattr(o, 'py_getitem'): return o.py_getitem(interp, i)
    if isinstance(o, (OStr, SUni)): return ostr()
    if isinstance(o, ClassV) or o is None or is_int(o) or isinstance(o, Flt):
        interp.py_raise('TypeError', b'object is not subscriptable')
    raise Unsupported('subscript of %r' % (o,))

def setitem(interp, o, i, v):
    E = interp.E
    if is_tup(o): interp.py_raise('TypeError', b'tuple does not support item assignment')
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(o, Ref):
        c = E.heap[o.id]
        if o.kind == 'list':
            if isinstance(i, SliceV):
                con = c.concrete()
                s = to_seq(interp, v)
                s = s if isinstance(s, LRope) else lrope(tuple(s))
                if i.a is None and i.b is None:
                    interp.putcontent(o, s); return
                if con is not None and s.concrete() is not None and all(x is None or isinstance(x, int) for x in (i.a, i.b, i.c)):
                    l = list(con); l[i.a:i.b] = list(s.concrete())
                    interp.putcontent(o, lrope(tuple(l))); return
                ab = slice_bounds(interp, c.length(), i)
                if ab is None: raise Unsupported('slice with a step')
                a, b = ab
                if interp.truth(b < a): b = a
                interp.putcontent(o, c.slice(0, a).plus(s).plus(c.slice(b, c.length()))); return
            j = norm_index(interp, c.length(), i, b'list assignment index out of range')
            con = c.concrete()
            if con is not None and isinstance(j, int):
                l = list(con); l[j] = v
                interp.putcontent(o, lrope(tuple(l))); return
            interp.putcontent(o, c.slice(0, j).plus(lrope((v,))).plus(c.slice(add(j, 1), c.length())))
            return
        if o.kind == 'dict':
            dict_set(interp, o, i, v)
            return
        if o.kind == 'inst':
            f = o.cls.lookup('__setitem__')
            if f is not None:
                interp.call(BoundV(f, o), [i, v], {}); return
        interp.py_raise('TypeError', b'object does not support item assignment')
    if isinstance(o, (tuple, bytes, Rope, str)): interp.py_raise('TypeError', b'object does not support item assignment')
    if hasattr(o, 'py_setitem'): return o.py_setitem(interp, i, v)
    raise Unsupported('item assignment to %r' % (o,))

def delitem(interp, o, i):
    E = interp.E
    if is_tup(o): interp.py_raise('TypeError', b'tuple does not support item deletion')
    if isinstance(o, Ref):
        c = E.heap[o.id]
        if o.kind == 'list':
            if isinstance(i, SliceV):
                if i.a is None and i.b is None and i.c is None:
                    interp.putcontent(o, LRope()); return
                ab = slice_bounds(interp, c.length(), i)
                if ab is None: raise Unsupported('slice with a step')
                a, b = ab
                if not interp.truth(a < b): return
                interp.putcontent(o, c.slice(0, a).plus(c.slice(b, c.length()))); return
            j = norm_index(interp, c.length(), i, b'list index out of range')
            n = c.length()
            interp.putcontent(o, c.slice(0, j).plus(c.slice(add(j, 1), n))); return
        if o.kind == 'dict':
            dict_del(interp, o, i); return
        if o.kind == 'inst':
            f = o.cls.lookup('__delitem__')
            if f is not None:
                interp.call(BoundV(f, o), [i], {}); return
        interp.py_raise('TypeError', b'object does not support item deletion')
    raise Unsupported('item deletion')

def contains(interp, o, x):
    E = interp.E
    if isinstance(o, Poison): raise PoisonRead(o.loc)
    if isinstance(o, (tuple,)):
        for y in o:
            if y is x or interp.truth(interp.py_eq(x, y)): return True
        return False
    if isinstance(o, (bytes, str)):
        if isinstance(x, (bytes, str)):
            return norm_b(x) in norm_b(o)
        if isinstance(x, Rope):
            n = x.length()
            if (n == 1) if not isinstance(n, int) else n == 1:
                t = index_str(x, 0)
                return mkbool(z3.Or([t == c for c in sorted(set(o))])) if o else False
        return SBool(E.fresh('instr', values.B))
    if isinstance(o, Rope):
        if isinstance(x, bytes) and len(x) == 1 and isinstance(o.length(), int):
            return mkbool(z3.Or([index_str(o, i) == x[0] for i in range(o.length())]))
        return SBool(E.fresh('instr', values.B))
    if isinstance(o, (OStr, SUni)): return SBool(E.fresh('instr', values.B))
    if isinstance(o, Ref):
        c = E.heap[o.id]
        if o.kind == 'dict': return dict_lookup(interp, c, x, o)[0]
        if o.kind == 'set':
            for y in c:
                if interp.truth(interp.py_eq(x, y)): return True
            return False
        if o.kind == 'list': return list_find(interp, c, x) is not None
        if o.kind == 'iter':
            s = to_seq(interp, o)
            return list_find(interp, s if isinstance(s, LRope) else lrope(tuple(s)), x) is not None
        if o.kind == 'inst':
            f = o.cls.lookup('__contains__')
            if f is not None: return interp.truth(interp.call(BoundV(f, o), [x], {}))
            f = o.cls.lookup('__getitem__')
            if f is None: interp.py_raise('TypeError', b'not iterable')
        raise Unsupported('in')
    if isinstance(o, SVal):
        if o.attrs is not None and '__contains__' in o.attrs: return o.attrs['__contains__'](o, x)
        if o.attrs is None and o.typ is None:
            return SBool(fun('in_op', values.I, values.I, values.B)(o.t, E.ident(x)))
    if isinstance(o, SRef):
        f = o.schema.methods.get('__contains__')
        if f is not None: return f(o, x)
    if o is None or is_int(o): interp.py_raise('TypeError', b'argument is not iterable')
    if hasattr(o, 'py_seq'):
        return list_find(interp, _as_l(interp, o), x) is not None
    raise Unsupported('in %r' % (o,))

def norm_b(x):
    return x.encode('utf-8') if isinstance(x, str) else x

def list_find(interp, c, x):
    """index of the first item equal to x, or None; forks"""
    E = interp.E
    base = 0
    for s in c.segs:
        if isinstance(s, ES):
            for k, y in enumerate(s.items):
                if y is x or interp.truth(interp.py_eq(y, x)): return add(base, k)
        elif isinstance(s, GS):
            # is there an index?
            if E.decide(E.fresh('found', values.B)):
                i = E.fresh('at', values.I)
                E.assume(z3.And(i >= 0, i < iv(s.ln)))
                v = s.at(SInt(i))
                E.assume_feasible(bv(E.eq(v, x)))
                forall_eq(E, s, x, i, False)
                return add(base, SInt(i))
            forall_eq(E, s, x, iv(s.ln), False)
        else:
            raise Unsupported('search in a folded list')
        base = add(base, s.length())
    return None

def forall_eq(E, s, x, n, _):
    """no item before n equals x (as a quantified fact)"""
    j = z3.Int('qj')
    E.nofork += 1
    try:
        v = s.at(SInt(j))
        t = bv(E.eq(v, x))
    except (Unsupported, PyExc, engine.NoFork):
        return              # the fact is left out: the search then may find any equal item
    finally:
        E.nofork -= 1
    E.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Not(t))))

# ---------------------------------------------------------------- dictionaries

def hashable(interp, k):
    if is_tup(k): raise Unsupported('an unknown tuple as a key')
    if isinstance(k, Ref) and k.kind in ('list', 'dict', 'set'):
        interp.py_raise('TypeError', b'unhashable type')
    if isinstance(k, tuple):
        for x in k: hashable(interp, x)

def quick_eq(a, b):
    """equality of constants, or None"""
    ta, tb = type(a), type(b)
    if ta is tb:
        if ta is bytes or ta is int or ta is bool: return a == b
        if ta is tuple:
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b):
                q = quick_eq(x, y)
                if q is False: return False
                if q is None: r = None
            return r
        if ta is Ref and a.kind == 'inst' and a.id == b.id: return True
        return None
    if (ta is bytes and tb in (int, bool)) or (tb is bytes and ta in (int, bool)): return False
    return None

def dict_lookup(interp, rep, k, o=None):
    if isinstance(k, Poison): raise PoisonRead(k.loc)
    hashable(interp, k)
    E = interp.E
    if isinstance(rep, LogRep):
        raise Unsupported('lookup in a logged dict')
    # constants first: no fork
    rest = []
    for kk, v in rep.entries:
        q = quick_eq(kk, k)
        if q: return True, v
        if q is None: rest.append((kk, v))
    for kk, v in rest:
        if kk is k: return True, v
        if interp.truth(interp.py_eq(kk, k)):
            return True, v
    for kk in rep.dead:
        if interp.truth(interp.py_eq(kk, k)): return False, None
    if rep.base is not None:
        t = key_term(E, k)
        if E.decide(z3.Select(rep.base.has, t)):
            if rep.base.get is not None:
                v = rep.base.get(t, k)
                if rep.base.promote is not None and o is not None:
                    # later lookups of an equal key find the same object
                    interp.E.heap[o.id] = DRep(rep.entries + ((k, v),), rep.dead, rep.base)
                return True, v
            return True, rep.base.mkval(z3.Select(rep.base.vals, t))
    return False, None

def key_term(E, k):
    if isinstance(k, tuple):
        ts = [key_term(E, x) for x in k]
        return fun('pairkey%d' % len(ts), *([values.I] * (len(ts) + 1)))(*ts)
    if isinstance(k, (int, SInt)) and not isinstance(k, bool):
        return iv(k)
    return E.ident(k)

def dict_set(interp, o, k, v):
    hashable(interp, k)
    c = interp.E.heap[o.id]
    if isinstance(c, LogRep): raise Unsupported('assignment into a logged dict')
    ent = list(c.entries)
    hit = None
    rest = []
    for n, (kk, _) in enumerate(ent):
        q = quick_eq(kk, k)
        if q:
            hit = n
            break
        if q is None: rest.append((n, kk))
    else:
        for n, kk in rest:
            if kk is k or interp.truth(interp.py_eq(kk, k)):
                hit = n
                break
    if hit is not None:
        ent[hit] = (ent[hit][0], v)
        interp.putcontent(o, DRep(ent, c.dead, c.base))
    else:
        interp.putcontent(o, DRep(ent + [(k, v)], c.dead, c.base))

def dict_del(interp, o, k):
    c = interp.E.heap[o.id]
    for n, (kk, _) in enumerate(c.entries):
        if kk is k or interp.truth(interp.py_eq(kk, k)):
            ent = list(c.entries); del ent[n]
            interp.putcontent(o, DRep(ent, c.dead + ((k,) if c.base is not None else ()), c.base))
            return
    f, v = dict_lookup(interp, c, k)
    if not f: interp.py_raise('KeyError', k)
    interp.putcontent(o, DRep(c.entries, c.dead + (k,), c.base))

def dict_len(interp, o):
    c = interp.E.heap[o.id]
    if isinstance(c, LogRep):
        # number of keys: zero iff nothing was added
        n = c.log.length()
        t = interp.E.fresh('nkeys', values.I)
        interp.E.fact(z3.And(t >= 0, t <= iv(n), (t == 0) == (iv(n) == 0)))
        return SInt(t)
    if c.base is None: return len(c.entries)
    if c.base.card is not None: return mkint(dict_card(interp, c))
    raise Unsupported('length of an unknown dict')

def dict_card(interp, c):
    """number of entries of a dict over a base with known size"""
    E = interp.E
    t = iv(c.base.card) + len(c.entries)
    inb = z3.IntVal(0)
    ks = [k for k, v in c.entries]
    for k in c.dead:
        if not any(kk is k or interp.truth(interp.py_eq(kk, k)) for kk in ks):
            ks.append(k)
    for k in ks:
        h = z3.If(z3.Select(c.base.has, key_term(E, k)), z3.IntVal(1), z3.IntVal(0))
        t = t - h
        inb = inb + h
    E.fact(iv(c.base.card) >= inb)
    return z3.simplify(t)

def dict_items(interp, o):
    """host list of pairs"""
    if isinstance(o, Ref) and o.kind == 'dict':
        c = interp.E.heap[o.id]
        if isinstance(c, DRep) and c.base is None: return list(c.entries)
        raise Unsupported('items of an unknown dict')
    if isinstance(o, dict): return list(o.items())
    if isinstance(o, SVal) and o.attrs is not None and '__items__' in o.attrs: return o.attrs['__items__'](o)
    if isinstance(o, Ref) and o.kind == 'inst' and o.cls.lookup('keys'):
        ks = host_items(interp, interp.call(BoundV(o.cls.lookup('keys'), o), [], {}))
        return [(k, getitem(interp, o, k)) for k in ks]
    interp.py_raise('TypeError', b'not a mapping')

def dict_keys(interp, o):
    c = interp.E.heap[o.id]
    if isinstance(c, LogRep): raise Unsupported('keys of a logged dict')
    ks = lrope(tuple(k for k, v in c.entries))
    if c.base is None: return ks
    if c.base.enum is not None and not c.dead and not c.entries: return c.base.enum
    raise Unsupported('keys of an unknown dict')

def dict_values(interp, o):
    c = interp.E.heap[o.id]
    if isinstance(c, LogRep): raise Unsupported('values of a logged dict')
    if c.base is None: return lrope(tuple(v for k, v in c.entries))
    if c.base.enum is not None and not c.dead and not c.entries:
        segs = []
        for s in c.base.enum.segs:
            if isinstance(s, GS):
                segs.append(GS(Gen(lambda i, s=s, b=c.base: b.get(key_term(eng(), s.at(i)), s.at(i))), 0, s.ln))
            else: raise Unsupported('values of an unknown dict')
        return LRope(segs)
    raise Unsupported('values of an unknown dict')

def dict_update(interp, d, src):
    if isinstance(src, Ref) and src.kind == 'dict' or isinstance(src, SVal) and src.attrs and '__items__' in src.attrs or \
            isinstance(src, Ref) and src.kind == 'inst':
        c = interp.E.heap[src.id] if isinstance(src, Ref) else None
        dc = interp.E.heap[d.id]
        if isinstance(c, DRep) and c.base is not None:
            if not dc.entries and dc.base is None and not dc.dead:
                interp.putcontent(d, c); return
            raise Unsupported('update from an unknown dict')
        for k, v in dict_items(interp, src): dict_set(interp, d, k, v)
        return
    for p in host_items(interp, src):
        k, v = host_items(interp, p)
        dict_set(interp, d, k, v)

# ---------------------------------------------------------------- methods of builtin types

def builtin_method(interp, v, name):
    if isinstance(v, (bytes, Rope, SName, OStr, str, SUni)): return str_method(interp, v, name)
    if isinstance(v, Ref):
        m = {'list': LIST_M, 'dict': DICT_M, 'set': SET_M, 'iter': ITER_M, 'file': FILE_M}.get(v.kind, {}).get(name)
        if name == '__class__': return v.cls
        if is_tup(v) and name not in TUP_M: m = None
        if m is not None: return Builtin(name, lambda *a, **k: m(interp, v, *a, **k))
        return None
    if isinstance(v, tuple):
        if name == 'index':
            def idx(x):
                for i, y in enumerate(v):
                    if interp.truth(interp.py_eq(x, y)): return i
                interp.py_raise('ValueError', b'not in tuple')
            return Builtin(name, idx)
        if name == 'count':
            return Builtin(name, lambda x: sum(1 for y in v if interp.truth(interp.py_eq(x, y))))
        if name == '__len__': return Builtin(name, lambda: len(v))
    if name == '__class__': return interp.type_of(v)
    if name in ('__str__', '__repr__') :
        return Builtin(name, lambda: to_str(interp, v))
    if is_int(v):
        if name in ('real', 'numerator'): return v
        if name == 'bit_length' and isinstance(v, int): return Builtin(name, lambda: v.bit_length())
    if hasattr(v, 'py_attr'): return v.py_attr(interp, name)
    if isinstance(v, BoundV) and name == '__name__': return v.f.name.encode()
    if isinstance(v, Builtin) and name == '__name__': return v.name.encode()
    return None

def class_method(interp, cls, name):
    if cls is interp.DICT and name == 'fromkeys':
        def fk(it, d=None):
            r = interp.E.new_dict()
            for k in host_items(interp, it): dict_set(interp, r, k, d)
            return r
        return Builtin(name, fk)
    if cls in (interp.STR, interp.UNICODE):
        return Builtin(name, lambda s, *a: interp.call(interp.getattr(s, name), list(a), {}))
    if cls in (interp.LIST, interp.DICT, interp.SET):
        return Builtin(name, lambda s, *a: interp.call(interp.getattr(s, name), list(a), {}))
    if name in ('__init__', '__new__'):
        return Builtin(name, lambda *a, **k: None)
    if name == '__mro__': return tuple(cls.mro)
    if name == '__module__': return cls.module.name.encode() if cls.module else b'__builtin__'
    if name == '__dict__': return interp.E.new_dict([(k.encode(), v) for k, v in cls.ns.items()])
    return None

def host_attr(interp, v, name):
    if name in ('__str__', '__repr__'):
        return (Builtin(name, lambda: ostr()),)
    if name == '__init__': return (Builtin(name, NOOP),)
    if name == '__hash__': return (Builtin(name, lambda: b_hash(interp, v)),)
    if name == '__doc__': return (None,)
    if name == '__module__': return (v.cls.module.name.encode() if v.cls.module else b'__builtin__',)
    return None

# lists

def _l(interp, v): return interp.E.heap[v.id]
def l_append(i, v, x): list_append(i, v, x)
def l_extend(i, v, x): list_extend(i, v, x)
def l_insert(i, v, k, x):
    c = _l(i, v)
    n = c.length()
    k = clamp(n, k, 0)
    i.putcontent(v, c.slice(0, k).plus(lrope((x,))).plus(c.slice(k, n)))
def l_pop(i, v, k=-1):
    c = _l(i, v)
    n = c.length()
    if not (isinstance(n, int) and n > 0) and (isinstance(n, int) or not i.truth(n > 0)):
        i.py_raise('IndexError', b'pop from empty list')
    j = norm_index(i, n, k, b'pop index out of range')
    if len(c.segs) > 1 and isinstance(c.segs[-1], ES) and not isinstance(n, int) and isinstance(k, int) and k == -1:
        x = c.segs[-1].items[-1]
        i.putcontent(v, LRope(c.segs[:-1] + (ES(c.segs[-1].items[:-1]),)))
        return x
    x = c.at(j)
    i.putcontent(v, c.slice(0, j).plus(c.slice(add(j, 1), n)))
    return x
def l_remove(i, v, x):
    c = _l(i, v)
    k = list_find(i, c, x)
    if k is None: i.py_raise('ValueError', b'list.remove(x): x not in list')
    i.putcontent(v, c.slice(0, k).plus(c.slice(add(k, 1), c.length())))
def l_index(i, v, x, *a):
    if a: raise Unsupported('index with bounds')
    k = list_find(i, _l(i, v), x)
    if k is None: i.py_raise('ValueError', b'not in list')
    return k
def l_count(i, v, x):
    c = _l(i, v).concrete()
    if c is None: raise Unsupported('count in an unknown list')
    return sum(1 for y in c if i.truth(i.py_eq(x, y)))
def l_reverse(i, v): i.putcontent(v, reverse_l(_l(i, v)))
def l_sort(i, v, cmp=None, key=None, reverse=False):
    c = _l(i, v)
    if c.concrete() is None: raise Unsupported('sort of an unknown list')
    r = b_sorted(i, v, cmp, key, reverse)
    i.putcontent(v, _l(i, r))
LIST_M = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'remove': l_remove, 'index': l_index,
          'count': l_count, 'reverse': l_reverse, 'sort': l_sort, '__len__': lambda i, v: _l(i, v).length(),
          '__contains__': lambda i, v, x: contains(i, v, x), '__getitem__': lambda i, v, k: getitem(i, v, k),
          '__iter__': lambda i, v: IterV(i, _l(i, v)), '__iadd__': lambda i, v, x: (list_extend(i, v, x), v)[1]}

def d_get(i, v, k, d=None):
    f, x = dict_lookup(i, _l(i, v), k, v)
    return x if f else d
def d_setdefault(i, v, k, d=None):
    f, x = dict_lookup(i, _l(i, v), k, v)
    if f: return x
    dict_set(i, v, k, d)
    return d
def d_pop(i, v, k, *d):
    f, x = dict_lookup(i, _l(i, v), k, v)
    if not f:
        if d: return d[0]
        i.py_raise('KeyError', k)
    dict_del(i, v, k)
    return x
def d_popitem(i, v):
    c = _l(i, v)
    if c.base is not None: raise Unsupported('popitem')
    if not c.entries: i.py_raise('KeyError', b'popitem(): dictionary is empty')
    i.putcontent(v, DRep(c.entries[:-1]))
    return c.entries[-1]
def d_items(i, v):
    c = _l(i, v)
    if isinstance(c, DRep) and c.base is None: return i.E.new_list(tuple(c.entries))
    if isinstance(c, DRep) and c.base.enum is not None and not c.dead and not c.entries:
        segs = []
        for s in c.base.enum.segs:
            segs.append(GS(Gen(lambda j, s=s, b=c.base: (s.at(j), b.get(key_term(eng(), s.at(j)), s.at(j)))), 0, s.ln))
        return i.E.new_list(LRope(segs))
    raise Unsupported('items of an unknown dict')
DICT_M = {'get': d_get, 'setdefault': d_setdefault, 'pop': d_pop, 'popitem': d_popitem,
          'has_key': lambda i, v, k: dict_lookup(i, _l(i, v), k, v)[0],
          '__contains__': lambda i, v, k: dict_lookup(i, _l(i, v), k, v)[0],
          'keys': lambda i, v: i.E.new_list(dict_keys(i, v)), 'values': lambda i, v: i.E.new_list(dict_values(i, v)),
          'items': d_items, 'iteritems': lambda i, v: IterV(i, _l(i, d_items(i, v)), v),
          'iterkeys': lambda i, v: IterV(i, dict_keys(i, v), v), 'itervalues': lambda i, v: IterV(i, dict_values(i, v), v),
          '__iter__': lambda i, v: IterV(i, dict_keys(i, v), v),
          'update': lambda i, v, *a, **k: ([dict_update(i, v, x) for x in a], [dict_set(i, v, n.encode(), x) for n, x in k.items()]) and None,
          'copy': lambda i, v: i.E.alloc('dict', i.DICT, _l(i, v)), 'clear': lambda i, v: i.putcontent(v, DRep()),
          '__len__': lambda i, v: dict_len(i, v), '__getitem__': lambda i, v, k: getitem(i, v, k),
          '__setitem__': lambda i, v, k, x: dict_set(i, v, k, x), '__delitem__': lambda i, v, k: dict_del(i, v, k)}

def s_remove(i, v, x, quiet=False):
    c = _l(i, v)
    for n, y in enumerate(c):
        if i.truth(i.py_eq(x, y)):
            i.putcontent(v, c[:n] + c[n + 1:]); return
    if not quiet: i.py_raise('KeyError', x)
SET_M = {'add': lambda i, v, x: set_add(i, v, x), 'remove': s_remove, 'discard': lambda i, v, x: s_remove(i, v, x, True),
         'update': lambda i, v, x: [set_add(i, v, y) for y in host_items(i, x)] and None,
         'union': lambda i, v, x: set_host(i, i.SET, [i.E.new_list(tuple(_l(i, v)) + tuple(host_items(i, x)))], {}),
         'copy': lambda i, v: i.E.alloc('set', v.cls, _l(i, v)), 'clear': lambda i, v: i.putcontent(v, ()),
         '__contains__': lambda i, v, x: contains(i, v, x), '__len__': lambda i, v: len(_l(i, v))}
ITER_M = {'next': lambda i, v: iter_next(i, v), '__iter__': lambda i, v: v}

def f_read(i, v, *a):
    l, p = _l(i, v)
    i.putcontent(v, (l, len(l)))
    return b''.join(l[p:])
def f_readline(i, v):
    l, p = _l(i, v)
    if p >= len(l): return b''
    i.putcontent(v, (l, p + 1))
    return l[p]
def f_seek(i, v, n, *a):
    if n != 0: raise Unsupported('seek')
    i.putcontent(v, (_l(i, v)[0], 0))
FILE_M = {'next': lambda i, v: iter_next(i, v), '__iter__': lambda i, v: v, 'read': f_read, 'readline': f_readline, 'seek': f_seek,
          'readlines': lambda i, v: i.E.new_list(tuple(to_seq(i, v))), 'close': lambda i, v: None,
          '__enter__': lambda i, v: v, '__exit__': lambda i, v, *a: False}

# strings

WS = b' \t\n\r\x0b\x0c'

def str_join(interp, sep, it):
    s = to_seq(interp, it)
    E = interp.E
    if isinstance(s, LRope):
        c = s.concrete()
        if c is None:
            if isinstance(sep, (bytes, str)) and not sep:
                segs = []
                for g in s.segs:
                    if isinstance(g, ES):
                        for x in g.items: segs.extend(segs_of(x))
                    elif isinstance(g, GS):
                        if g.gen.params == () and isinstance(g.off, int) and g.off == 0:
                            segs.append(FS(g.gen, g.ln))
                        else:
                            segs.append(FS(Gen(lambda i, g=g: g.at(i)), g.ln))
                    else:
                        segs.append(FS(Gen(lambda i, g=g: str_join(interp, sep, g.gen(i))), g.n))
                return norm(segs)
            if isinstance(sep, bytes) and len(s.segs) == 1 and isinstance(s.segs[0], GS):
                g = s.segs[0]
                if not interp.truth(iv_gt0(g.ln)): return b''
                last = g.at(sub(g.ln, 1))
                return cat(norm([FS(Gen(lambda i, g=g: cat(g.at(i), sep)), sub(g.ln, 1))]), last)
            return ostr()
        s = c
    s = list(s)
    if any(isinstance(x, (OStr, SUni, SVal)) for x in s) or isinstance(sep, (OStr, SUni)): return ostr()
    for x in s:
        if not isinstance(x, (bytes, str, Rope, SName)): interp.py_raise('TypeError', b'sequence item: expected string')
    if all(isinstance(x, str) for x in s + [sep]) : return sep.join(s)
    if any(isinstance(x, SName) for x in s): return ostr()
    if any(isinstance(x, str) for x in s + [sep]) and all(isinstance(x, (bytes, str)) for x in s + [sep]):
        return (sep.decode() if isinstance(sep, bytes) else sep).join([x.decode('ascii') if isinstance(x, bytes) else x for x in s])
    out = []
    for n, x in enumerate(s):
        if n: out.append(sep)
        out.append(x)
    return cat(*out)

def iv_gt0(n):
    return mkbool(iv(n) > 0)

def rstrip(interp, v, chars):
    """exact where the end is known piece by piece, a function of the atom otherwise"""
    E = interp.E
    if isinstance(v, bytes): return v.rstrip(chars)
    segs = list(segs_of(v))
    while segs:
        s = segs[-1]
        if isinstance(s, CB):
            b = s.b.rstrip(chars)
            if b:
                segs[-1] = CB(b)
                break
            segs.pop()
        elif isinstance(s, BT):
            if E.decide(z3.Or([s.t == c for c in sorted(set(chars))])): segs.pop()
            else: break
        elif isinstance(s, RS):
            if not E.decide(iv(s.n) > 0): segs.pop(); continue
            if E.decide(z3.Or([s.t == c for c in sorted(set(chars))])): segs.pop()
            else: break
        elif isinstance(s, AT):
            if isinstance(s.ln, int) and s.ln <= 16:
                segs[-1:] = [BT(s.at(i)) for i in range(s.ln)]
                continue
            f = fun('rstrip%s_%s' % (chars.hex(), s.atom.fname), *([values.I] * (len(s.atom.args) + 3)))
            t = f(*(s.atom.args + (iv(s.off), iv(s.ln))))
            n = iv(s.ln)
            inset = lambda x: z3.Or([x == c for c in sorted(set(chars))])
            E.fact(z3.Implies(n >= 0, z3.And(t >= 0, t <= n)))
            E.fact(z3.Implies(z3.And(t > 0, n >= 0), z3.Not(inset(s.at(mkint(t - 1))))))
            j = z3.Int('qr')
            ft = fun('byte_' + s.atom.fname, *([values.I] * (len(s.atom.args) + 2)))(*(s.atom.args + (j,)))
            E.fact(z3.ForAll([j], z3.Implies(z3.And(j >= iv(s.off) + t, j < iv(s.off) + n), inset(ft)), patterns=[ft]))
            if len(segs) > 1 and not E.decide(t > 0):
                segs.pop()
                continue
            segs[-1] = AT(s.atom, s.off, mkint(t))
            break
        else:
            if not E.decide(iv(s.n) > 0): segs.pop(); continue
            segs[-1:] = [FS(s.gen, sub(s.n, 1))] + list(segs_of(s.gen(sub(s.n, 1))))
    return norm(segs)

def lstrip(interp, v, chars):
    E = interp.E
    if isinstance(v, bytes): return v.lstrip(chars)
    segs = list(segs_of(v))
    while segs:
        s = segs[0]
        if isinstance(s, CB):
            b = s.b.lstrip(chars)
            if b:
                segs[0] = CB(b)
                break
            segs.pop(0)
        elif isinstance(s, BT):
            if E.decide(z3.Or([s.t == c for c in sorted(set(chars))])): segs.pop(0)
            else: break
        elif isinstance(s, RS):
            if not E.decide(iv(s.n) > 0): segs.pop(0); continue
            if E.decide(z3.Or([s.t == c for c in sorted(set(chars))])): segs.pop(0)
            else: break
        elif isinstance(s, AT):
            if isinstance(s.ln, int) and s.ln <= 16:
                segs[:1] = [BT(s.at(i)) for i in range(s.ln)]
                continue
            raise Unsupported('lstrip of an unknown string')
        else:
            if not E.decide(iv(s.n) > 0): segs.pop(0); continue
            first = list(segs_of(s.gen(0)))
            t = list(first)
            # does the first piece stay as it is? then nothing is to be split off
            r = lstrip(interp, norm(t), chars)
            if E.valid(bv(E.eq(str_len(r), str_len(norm(t)))), full=False)[0] == 'unsat' and t:
                break
            segs[:1] = first + [FS(Gen(lambda i, s=s: s.gen(add(i, 1))), sub(s.n, 1))]
    return norm(segs)

CONC_STR = set('''split rsplit splitlines strip rstrip lstrip replace lower upper startswith endswith find rfind index rindex count
isdigit isalpha isalnum isspace isupper islower title capitalize center ljust rjust zfill partition rpartition swapcase
translate expandtabs'''.split())

def wrap_result(interp, r):
    if isinstance(r, list): return interp.E.new_list(tuple(r))
    return r

def str_method(interp, v, name):
    E = interp.E
    conc = isinstance(v, (bytes, str))
    if name == 'join': return Builtin(name, lambda it: str_join(interp, v, it))
    if name == '__len__': return Builtin(name, lambda: b_len(interp, v))
    if name == '__class__': return interp.type_of(v)
    if name in ('__str__',): return Builtin(name, lambda: to_str(interp, v))
    if name in ('__repr__',): return Builtin(name, lambda: py_repr(interp, v))
    if name == '__contains__': return Builtin(name, lambda x: contains(interp, v, x))
    if name == 'encode':
        def encode(enc=b'ascii', errors=b'strict'):
            if isinstance(v, str):
                e = name_of(interp, enc)
                if e in ('hex',): return _binascii.hexlify(v.encode('ascii'))
                try: return v.encode(e, name_of(interp, errors))
                except UnicodeError: interp.py_raise('UnicodeEncodeError', b'encode')
            if isinstance(v, SUni):
                e = name_of(interp, enc).lower().replace('_', '-')
                if e in ('utf-8', 'utf8'): return v.utf8
                if E.decide(fun('encodable_%s' % e, values.I, values.B)(v.t)): return ostr()
                interp.py_raise('UnicodeEncodeError', b'encode')
            if isinstance(v, bytes):
                if name_of(interp, enc) == 'hex': return _binascii.hexlify(v)
                try: return v.decode('ascii').encode(name_of(interp, enc))
                except UnicodeError: interp.py_raise('UnicodeDecodeError', b'decode')
            # a byte string is decoded as ASCII first
            if E.decide(E.fresh('ascii', values.B)): return v
            interp.py_raise('UnicodeDecodeError', b'ascii')
        return Builtin(name, encode)
    if name == 'decode':
        def decode(enc=b'ascii', errors=b'strict'):
            if isinstance(v, bytes):
                e = name_of(interp, enc)
                if e == 'hex':
                    try: return _binascii.unhexlify(v)
                    except Exception: interp.py_raise('TypeError', b'Non-hexadecimal digit found')
                try: return v.decode(e, name_of(interp, errors))
                except UnicodeError: interp.py_raise('UnicodeDecodeError', b'decode')
            if isinstance(v, str): return v
            if E.decide(E.fresh('decodable', values.B)):
                return SUni(E.fresh('uni', values.I), v if isinstance(v, Rope) else E.fresh_str('utf8'))
            interp.py_raise('UnicodeDecodeError', b'decode')
        return Builtin(name, decode)
    if name == 'format':
        def fmt(*a, **k):
            for x in a: to_str(interp, x)
            return ostr()
        return Builtin(name, fmt)
    if name in CONC_STR and conc:
        def f(*a, **k):
            a = [x for x in a]
            if all(isinstance(x, (bytes, str, int, type(None), tuple)) for x in a):
                w = v
                if isinstance(w, bytes): a = [x.encode('ascii') if isinstance(x, str) else x for x in a]
                else: a = [x.decode('latin-1') if isinstance(x, bytes) else x for x in a]
                if a and a[0] is None: a = []
                try: return wrap_result(interp, getattr(w, name)(*a))
                except ValueError as e: interp.py_raise('ValueError', str(e).encode())
                except TypeError as e: interp.py_raise('TypeError', str(e).encode())
            return sym_str(interp, v, name, a)
        return Builtin(name, f)
    if name in CONC_STR:
        return Builtin(name, lambda *a: sym_str(interp, v, name, list(a)))
    return None

def sym_str(interp, v, name, a):
    E = interp.E
    if isinstance(v, (Rope, bytes)):
        chars = WS if not a or a[0] is None else a[0] if isinstance(a[0], bytes) else a[0].encode() if isinstance(a[0], str) else None
        if name in ('rstrip', 'strip', 'lstrip') and chars is not None:
            if name == 'rstrip': return rstrip(interp, v, chars)
            if name == 'lstrip': return lstrip(interp, v, chars)
            return lstrip(interp, rstrip(interp, v, chars), chars)
        if name == 'startswith' and isinstance(a[0], bytes):
            n = str_len(v)
            if not interp.truth(n >= len(a[0])): return False
            return E.eq(slice_str(v, 0, len(a[0])), a[0])
        if name == 'endswith' and isinstance(a[0], bytes):
            n = str_len(v)
            if not interp.truth(n >= len(a[0])): return False
            return E.eq(slice_str(v, sub(n, len(a[0])), n), a[0])
        if name == 'replace' and isinstance(a[0], bytes) and isinstance(a[1], (bytes, Rope)) and len(a[0]) == 1 and \
                isinstance(str_len(v), int) and str_len(v) <= 16:
            out = []
            for i in range(str_len(v)):
                t = index_str(v, i)
                if E.decide(t == a[0][0]): out.append(a[1])
                else: out.append(norm([BT(t)]))
            return cat(*out)
        if name == 'ljust' and len(a) <= 2 and isinstance(a[0], int) and isinstance(str_len(v), int):
            fill = a[1] if len(a) > 1 else b' '
            return cat(v, fill * max(0, a[0] - str_len(v)))
        if name == 'rjust' and len(a) <= 2 and isinstance(a[0], int) and isinstance(str_len(v), int):
            fill = a[1] if len(a) > 1 else b' '
            return cat(fill * max(0, a[0] - str_len(v)), v)
        if name == 'ljust' and isinstance(a[0], int):
            n = str_len(v)
            fill = a[1] if len(a) > 1 else b' '
            if interp.truth(n >= a[0]): return v
            return cat(v, norm([RS(z3.IntVal(fill[0]), sub(a[0], n))]))
    if name == 'split' and isinstance(v, (SName, OStr, Rope)):
        h = getattr(interp, 'split_hook', None)
        if h is not None:
            r = h(interp, v, a)
            if r is not None: return r
    if name in ('strip', 'lower', 'upper', 'replace', 'rstrip', 'lstrip', 'title', 'capitalize', 'ljust', 'rjust', 'center', 'zfill'):
        return OStr(fun('strop_' + name, values.I, values.I)(text_ident(v))) if not a else ostr()
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower'):
        k = '_'.join(x.hex() if isinstance(x, bytes) else repr(x) for x in a)
        if isinstance(v, (SName, OStr, SUni)):
            return mkbool(fun('strop_%s_%s' % (name, k), values.I, values.B)(v.t))
        return SBool(E.fresh('strop', values.B))
    if name in ('find', 'rfind', 'index', 'rindex', 'count'):
        n = str_len(v) if isinstance(v, (Rope, bytes)) else b_len(interp, v)
        t = E.fresh('find', values.I)
        E.fact(z3.And(t >= (0 if name == 'count' else -1), t <= iv(n)))
        if name in ('index', 'rindex'):
            if t is not None and not E.decide(t >= 0): interp.py_raise('ValueError', b'substring not found')
        return SInt(t)
    raise Unsupported('%s of an unknown string' % name)

# ---------------------------------------------------------------- operators

def opaque_op(interp, name, *a):
    E = interp.E
    if any(isinstance(x, Flt) for x in a): raise Unsupported('operator on an unknown value')
    ts = [E.ident(x) for x in a]
    if E.choose('op_err', 2): interp.py_raise('TypeError', b'unsupported operand')
    return SVal(fun('op_' + name, *([values.I] * (len(ts) + 1)))(*ts))

def binop(interp, op, a, b):
    E = interp.E
    sb = lambda v: isinstance(v, (bytes, Rope))
    st = lambda v: isinstance(v, (bytes, Rope, OStr, SName, SUni, str))
    if op == 'Add':
        if sb(a) and sb(b): return cat(a, b)
        if isinstance(a, str) and isinstance(b, str): return a + b
        if isinstance(a, (bytes, str)) and isinstance(b, (bytes, str)):
            try: return (a.decode('ascii') if isinstance(a, bytes) else a) + (b.decode('ascii') if isinstance(b, bytes) else b)
            except UnicodeError: interp.py_raise('UnicodeDecodeError', b'ascii')
        if isinstance(a, SUni) and isinstance(b, (bytes, str)):
            return SUni(E.fresh('uni', values.I), cat(a.utf8, b if isinstance(b, bytes) else b.encode('utf-8')))
        if isinstance(b, SUni) and isinstance(a, (bytes, str)):
            return SUni(E.fresh('uni', values.I), cat(a if isinstance(a, bytes) else a.encode('utf-8'), b.utf8))
        if st(a) and st(b): return ostr()
        if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(a, Ref) and a.kind == 'list' and isinstance(b, Ref) and b.kind == 'list':
            if is_tup(a) != is_tup(b): interp.py_raise('TypeError', b'can only concatenate alike')
            if is_tup(a): return tup_ref(interp, E.get(a).plus(E.get(b)))
            return E.new_list(E.get(a).plus(E.get(b)))
        if is_tup(a) and isinstance(b, tuple): return tup_ref(interp, E.get(a).plus(lrope(b)))
        if is_tup(b) and isinstance(a, tuple): return tup_ref(interp, lrope(a).plus(E.get(b)))
    if op == 'Mult':
        if is_int(a) and not is_int(b): a, b = b, a
        if is_int(b) and not isinstance(b, SBool):
            if isinstance(a, (bytes, str, tuple)) and isinstance(b, int): return a * b
            if isinstance(a, bytes):
                if len(a) == 0: return b''
                if not interp.truth(b > 0): return b''
                if len(a) == 1: return norm([RS(z3.IntVal(a[0]), b)])
                return norm([FS(Gen(lambda i: a, (), None, 'rep' + a.hex()), b)])
            if isinstance(a, Rope):
                if isinstance(b, int): return cat(*([a] * max(b, 0)))
                if not interp.truth(b > 0): return b''
                if len(a.segs) == 1 and isinstance(a.segs[0], BT): return norm([RS(a.segs[0].t, b)])
                return norm([FS(Gen(lambda i: a), b)])
            if is_tup(a): raise Unsupported('repetition of an unknown tuple')
            if isinstance(a, Ref) and a.kind == 'list':
                c = E.get(a)
                if isinstance(b, int):
                    r = LRope()
                    for _ in range(b): r = r.plus(c)
                    return E.new_list(r)
                if c.concrete() is not None and len(c.concrete()) == 1:
                    if not interp.truth(b > 0): return E.new_list()
                    x = c.concrete()[0]
                    return E.new_list(LRope([GS(Gen(lambda i: x), 0, b)]))
    if op == 'Mod' and st(a):
        if is_tup(b): raise Unsupported('formatting an unknown tuple')
        return format_(interp, a, b)
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and isinstance(a, Ref) and a.kind == 'set' and isinstance(b, Ref) and b.kind == 'set':
        x, y = E.get(a), E.get(b)
        inn = lambda e, s: any(interp.truth(interp.py_eq(e, z)) for z in s)
        if op == 'BitOr': r = x + tuple(e for e in y if not inn(e, x))
        elif op == 'BitAnd': r = tuple(e for e in x if inn(e, y))
        elif op == 'Sub': r = tuple(e for e in x if not inn(e, y))
        else: r = tuple(e for e in x if not inn(e, y)) + tuple(e for e in y if not inn(e, x))
        return E.alloc('set', interp.SET, r)
    if isinstance(a, SVal) or isinstance(b, SVal):
        if any(isinstance(x, SVal) and x.typ is None and x.attrs is None for x in (a, b)):
            return opaque_op(interp, op, a, b)
    return NotImplemented

SPEC = _re.compile(rb'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)', _re.S)

def hexdigit(t, upper):
    return z3.If(t < 10, t + 48, t + (55 if upper else 87))

def format_(interp, f, args):
    E = interp.E
    if isinstance(f, str):
        fb = f.encode('utf-8')
    elif isinstance(f, bytes): fb = f
    else:
        return ostr()
    uni = isinstance(f, str)
    exact = True
    out = []
    pos = 0
    mapping = isinstance(args, Ref) and args.kind == 'dict'
    tup = args if isinstance(args, tuple) else (args,)
    k = 0
    used_map = False
    for m in SPEC.finditer(fb):
        out.append(fb[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == b'%':
            out.append(b'%'); continue
        if width == b'*' or prec == b'*': raise Unsupported('format with *')
        if key is not None:
            used_map = True
            v = getitem(interp, args, key)
        else:
            if k >= len(tup): interp.py_raise('TypeError', b'not enough arguments for format string')
            v = tup[k]; k += 1
        c = chr(conv[0])
        if c in 'sr':
            s = to_str(interp, v) if c == 's' else py_repr(interp, v)
            if isinstance(v, (str, SUni)) and c == 's': uni = True; s = v
            if isinstance(s, (bytes, Rope)) and not width and not prec and not flags: out.append(s)
            elif isinstance(s, bytes): out.append((b'%' + (flags or b'') + (width or b'') + (b'.' + prec if prec else b'') + b's') % s)
            elif isinstance(s, str) and not width: out.append(s.encode('utf-8'))
            else: exact = False
        elif c in 'diuxXoc':
            if isinstance(v, (bytes, str, Rope, OStr, SName)) and c != 'c' or v is None or isinstance(v, Ref):
                interp.py_raise('TypeError', b'%d format: a number is required')
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int) and c != 'c':
                out.append((b'%' + (flags or b'') + (width or b'') + (b'.' + prec if prec else b'') + (b'd' if c == 'u' else conv)) % v)
            elif isinstance(v, int): out.append(bytes([v]))
            elif isinstance(v, SInt) and c in 'xX' and (flags == b'0' and width == b'2' or prec == b'2') and \
                    E.valid(z3.And(v.t >= 0, v.t <= 255), full=False)[0] == 'unsat':
                out.append(norm([BT(hexdigit(v.t / 16, c == 'X')), BT(hexdigit(v.t % 16, c == 'X'))]))
            else: exact = False
        elif c in 'eEfFgG':
            if isinstance(v, (bytes, str, Rope, OStr)) or v is None:
                interp.py_raise('TypeError', b'float argument required')
            exact = False
        else:
            interp.py_raise('ValueError', b'unsupported format character')
    out.append(fb[pos:])
    if k < len(tup) and not used_map and not (mapping and len(tup) == 1):
        if isinstance(args, tuple) or not isinstance(args, (SVal, SRef)) and k == 0:
            interp.py_raise('TypeError', b'not all arguments converted during string formatting')
    if not exact: return ostr()
    r = cat(*out)
    if uni:
        return r.decode('utf-8') if isinstance(r, bytes) else SUni(E.fresh('uni', values.I), r)
    return r

# ---------------------------------------------------------------- struct

FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True),
       'L': (4, False), 'q': (8, True), 'Q': (8, False)}

def parse_fmt(interp, fmt):
    """list of (code, count, padding) and the byte order; native alignment and sizes without a prefix"""
    if isinstance(fmt, str): fmt = fmt.encode()
    if not isinstance(fmt, bytes): raise Unsupported('unknown struct format')
    s = fmt.decode('latin-1')
    order = '@'
    if s and s[0] in '@=<>!':
        order = s[0]; s = s[1:]
    out = []
    i = 0
    while i < len(s):
        if s[i].isspace(): i += 1; continue
        n = ''
        while i < len(s) and s[i].isdigit(): n += s[i]; i += 1
        if i >= len(s): raise_struct(interp, b'repeat count given without format specifier')
        c = s[i]; i += 1
        if c not in 'bBhHiIlLqQfdsxpc?':
            raise_struct(interp, b'bad char in struct format')
        out.append((c, int(n) if n else 1))
    return order, out

def struct_error(interp):
    return interp.import_module('struct').ns['error']

def raise_struct(interp, msg):
    raise PyExc(interp.instantiate(struct_error(interp), [msg], {}))

def item_size(order, c):
    if c in FMT:
        n = FMT[c][0]
        if c in 'lL' and order == '@': return 8
        return n
    return {'f': 4, 'd': 8, 's': 1, 'x': 1, 'p': 1, 'c': 1, '?': 1}[c]

def layout(order, items):
    """(code, offset) per value, and the size"""
    pos = 0
    out = []
    for c, n in items:
        sz = item_size(order, c)
        if order == '@' and sz > 1 and pos % sz: pos += sz - pos % sz
        if c == 's':
            out.append((c, pos, n)); pos += n
        elif c == 'x': pos += n
        else:
            for _ in range(n):
                out.append((c, pos, sz)); pos += sz
    return out, pos

def bytes_of_uint(t, n):
    """n byte terms, least significant first, of 0 <= t < 256**n"""
    E = eng()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        v = t.as_long()
        return [z3.IntVal((v >> (8 * k)) & 255) for k in range(n)]
    if n == 1: return [t]
    if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 256 ** n:
        return [z3.simplify((t.arg(0) / z3.IntVal(256 ** k)) % 256) for k in range(n)]
    m = E.memo.get(('uint', n, t.get_id()))
    if m is not None: return list(m[1])
    bs = [fun('byte%d_%d' % (n, k), values.I, values.I)(t) for k in range(n)]
    s = bs[0]
    for k in range(1, n): s = s + bs[k] * z3.IntVal(256 ** k)
    E.fact(z3.And([t == s] + [z3.And(b >= 0, b <= 255) for b in bs]))
    return bs

def uint_of_bytes(bs):
    """inverse of bytes_of_uint, recognising its result"""
    n = len(bs)
    if n == 1: return bs[0]
    b0 = z3.simplify(bs[0])
    if z3.is_app(b0) and b0.decl().name() == 'byte%d_0' % n and b0.num_args() == 1:
        t = b0.arg(0)
        if all(z3.simplify(bs[k]).eq(fun('byte%d_%d' % (n, k), values.I, values.I)(t)) for k in range(n)): return t
    s = bs[0]
    for k in range(1, n): s = s + bs[k] * z3.IntVal(256 ** k)
    s = z3.simplify(s)
    # bytes are between 0 and 255: they are the digits of this number
    eng().memo[('uint', n, s.get_id())] = (s, list(bs))
    return s

def f_bits(n, x):
    """IEEE bits of a real; see the assumptions"""
    E = eng()
    x = z3.simplify(x)
    bits = fun('f%dbits' % (8 * n), values.R, values.I)(x)
    val = fun('f%dval' % (8 * n), values.I, values.R)
    E.fact(z3.And(bits >= 0, bits < 256 ** n))
    r = fun('round%d' % (8 * n), values.R, values.R)
    E.fact(val(bits) == r(x))
    E.fact(r(r(x)) == r(x))
    E.fact(z3.And(z3.Implies(x >= 0, r(x) >= 0), z3.Implies(x <= 0, r(x) <= 0)) if n == 4 else r(x) == x)
    # a value that came from the wire is a float of that width
    if z3.is_app(x) and x.decl().name() == 'f%dval' % (8 * n): E.fact(r(x) == x)
    if n == 4: E.fact(z3.Implies(x == 0, r(x) == 0))
    return bits

def f_val(n, bits):
    E = eng()
    bits = z3.simplify(bits)
    if z3.is_app(bits) and bits.decl().name() == 'f%dbits' % (8 * n):
        f_bits(n, bits.arg(0))
    v = fun('f%dval' % (8 * n), values.I, values.R)(bits)
    r = fun('round%d' % (8 * n), values.R, values.R)
    E.fact(r(v) == v)
    return v

def st_pack(interp, fmt, *args):
    E = interp.E
    order, items = parse_fmt(interp, fmt)
    lay, size = layout(order, items)
    if len(args) != len(lay): raise_struct(interp, b'pack requires exactly %d arguments' % len(lay))
    big = order in '>!'
    out = []
    pos = 0
    for (c, off, sz), v in zip(lay, args):
        if off > pos: out.append(b'\0' * (off - pos))
        pos = off + sz
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        if c in FMT or c == '?':
            if isinstance(v, SVal): raise Unsupported('struct.pack of an unknown value')
            if isinstance(v, Flt): raise Unsupported('struct.pack of a float as an integer')
            if not is_int(v): raise_struct(interp, b'required argument is not an integer')
            if c == '?':
                out.append(norm([BT(z3.If(bv(SBool(iv(v) != 0)), z3.IntVal(1), z3.IntVal(0)))])); continue
            signed = FMT[c][1]
            t = iv(v)
            lo, hi = (-(256 ** sz) // 2, 256 ** sz // 2 - 1) if signed else (0, 256 ** sz - 1)
            if not E.decide(z3.And(t >= lo, t <= hi)):
                # CPython raises, Jython truncates: either may happen
                if E.choose('pack_range', 2): raise_struct(interp, b'argument out of range')
                bs = [E.fresh('trunc', values.I) for _ in range(sz)]
                for b in bs: E.fact(z3.And(b >= 0, b <= 255))
            else:
                u = t if not signed else z3.simplify(z3.If(t < 0, t + 256 ** sz, t))
                bs = bytes_of_uint(u, sz)
            out.append(norm([BT(b) for b in (reversed(bs) if big else bs)]))
        elif c in 'fd':
            if not (is_int(v) or isinstance(v, Flt)):
                if isinstance(v, SVal): raise Unsupported('struct.pack of an unknown value')
                raise_struct(interp, b'required argument is not a float')
            bs = bytes_of_uint(f_bits(sz, Flt.of(v).t), sz)
            out.append(norm([BT(b) for b in (reversed(bs) if big else bs)]))
        elif c == 's':
            if not is_bytes(v): raise_struct(interp, b"argument for 's' must be a string")
            n = str_len(v)
            if interp.truth(n >= sz): out.append(slice_str(v, 0, sz))
            else: out.append(cat(v, norm([RS(z3.IntVal(0), sub(sz, n))])))
        elif c == 'c':
            if not is_bytes(v) or not interp.truth(E.eq(str_len(v), 1)): raise_struct(interp, b'char format requires string of length 1')
            out.append(v)
        else: raise Unsupported('struct code ' + c)
    if size > pos: out.append(b'\0' * (size - pos))
    return cat(*out)

def st_unpack(interp, fmt, data):
    E = interp.E
    order, items = parse_fmt(interp, fmt)
    lay, size = layout(order, items)
    if isinstance(data, SVal): raise Unsupported('struct.unpack of an unknown value')
    if not is_bytes(data): interp.py_raise('TypeError', b'unpack argument must be a string')
    if not interp.truth(E.eq(str_len(data), size)):
        raise_struct(interp, b'unpack str size does not match format')
    big = order in '>!'
    out = []
    for c, off, sz in lay:
        if c == 's':
            out.append(slice_str(data, off, off + sz)); continue
        bs = [index_str(data, off + k) for k in range(sz)]
        if big: bs.reverse()
        if c in FMT:
            u = uint_of_bytes(bs)
            if FMT[c][1]:
                # recognise the two's complement of a packed value
                m = 256 ** sz
                u2 = z3.simplify(u)
                out.append(mkint(z3.If(u2 >= m // 2, u2 - m, u2)))
            else: out.append(mkint(u))
        elif c in 'fd':
            out.append(Flt(f_val(sz, uint_of_bytes(bs))))
        elif c == 'c': out.append(norm([BT(bs[0])]))
        elif c == '?': out.append(mkbool(bs[0] != 0))
        else: raise Unsupported('struct code ' + c)
    return tuple(out)

def st_calcsize(interp, fmt):
    order, items = parse_fmt(interp, fmt)
    return layout(order, items)[1]

# ---------------------------------------------------------------- uuid

class UuidV(object):
    """a uuid.UUID: an immutable 128 bit number"""
    def __init__(self, interp, t):
        self.interp = interp
        self.t = z3.simplify(t)
        self.pytype = interp.UUIDCLS
    def __repr__(self): return 'UuidV(%s)' % self.t
    def subst(self, S): return UuidV(self.interp, S.term(self.t))
    def raw(self):
        bs = bytes_of_uint(self.t, 16)
        return norm([BT(b) for b in reversed(bs)])
    def text(self, interp):
        t = z3.simplify(self.t)
        if z3.is_int_value(t): return str(_uuid.UUID(int=t.as_long())).encode()
        return UuidText(t)
    def py_eq(self, interp, o):
        if isinstance(o, UuidV): return mkbool(self.t == o.t)
        if isinstance(o, SVal): return mkbool(fun('uuidval', values.I, values.I)(self.t) == o.t)
        return False
    def py_attr(self, interp, name):
        if name == 'int': return mkint(self.t)
        if name == 'bytes': return self.raw()
        if name == 'hex':
            return UuidText(self.t, True)
        if name in ('__str__', '__repr__'): return Builtin(name, lambda: self.text(interp))
        if name == 'bytes_le': raise Unsupported('bytes_le')
        if name == '__class__': return interp.UUIDCLS
        if name == '__eq__': return Builtin(name, lambda o: self.py_eq(interp, o))
        return None

class UuidText(OStr):
    """str(uuid)"""
    __slots__ = ('u',)
    def __init__(self, u, hex=False):
        OStr.__init__(self, fun('uuidhex' if hex else 'uuidstr', values.I, values.I)(u))
        self.u = u
    def py_eq(self, interp, o):
        if isinstance(o, UuidText): return mkbool(self.u == o.u)
        if isinstance(o, (bytes, str)):
            s = o if isinstance(o, str) else o.decode('latin-1')
            try: n = _uuid.UUID(s)
            except ValueError: return False
            if str(n) != s: return False
            return mkbool(self.u == z3.IntVal(n.int))
        return interp.E.eq(self, o)
    def subst(self, S): return UuidText(S.term(self.u))

def uuid_host(interp, cls, a, k):
    E = interp.E
    names = ['hex', 'bytes', 'bytes_le', 'fields', 'int', 'version']
    for n, v in zip(names, a): k[n] = v
    given = [n for n in names[:5] if k.get(n) is not None]
    if len(given) != 1: interp.py_raise('TypeError', b'need exactly one of hex, bytes, bytes_le, fields, or int')
    n = given[0]; v = k[n]
    if n == 'bytes':
        if isinstance(v, SVal): raise Unsupported('uuid of an unknown value')
        if not is_bytes(v): interp.py_raise('TypeError', b'not bytes')
        if not interp.truth(E.eq(str_len(v), 16)): interp.py_raise('ValueError', b'bytes is not a 16-char string')
        bs = [index_str(v, i) for i in range(16)]
        bs.reverse()
        return UuidV(interp, uint_of_bytes(bs))
    if n == 'int':
        if not is_int(v): interp.py_raise('TypeError', b'an integer is required')
        if not E.decide(z3.And(iv(v) >= 0, iv(v) < 2 ** 128)): interp.py_raise('ValueError', b'int is out of range (need a 128-bit value)')
        return UuidV(interp, iv(v))
    if n == 'hex':
        if isinstance(v, (bytes, str)):
            try: u = _uuid.UUID(v.decode('latin-1') if isinstance(v, bytes) else v)
            except ValueError: interp.py_raise('ValueError', b'badly formed hexadecimal UUID string')
            return UuidV(interp, z3.IntVal(u.int))
        if isinstance(v, UuidText): return UuidV(interp, v.u)
        if isinstance(v, (OStr, SName, Rope, SUni)):
            t = text_ident(v)
            if not E.decide(fun('isuuid', values.I, values.B)(t)): interp.py_raise('ValueError', b'badly formed hexadecimal UUID string')
            x = fun('uuidparse', values.I, values.I)(t)
            E.fact(z3.And(x >= 0, x < 2 ** 128))
            return UuidV(interp, x)
        if isinstance(v, SVal): raise Unsupported('uuid of an unknown value')
        interp.py_raise('AttributeError', b'replace')
    raise Unsupported('uuid.UUID(%s=)' % n)

def uuid4(interp):
    t = interp.E.fresh('uuid4', values.I)
    interp.E.fact(z3.And(t > 0, t < 2 ** 128))
    return UuidV(interp, t)

# ---------------------------------------------------------------- regular expressions (known patterns and texts only)

class MatchV(object):
    def __init__(self, interp, m):
        self.interp = interp; self.m = m; self.pytype = interp.OPAQUE
    def py_attr(self, interp, name):
        if name == 'group': return Builtin(name, lambda *a: self.m.group(*[x for x in a]))
        if name == 'groups': return Builtin(name, lambda *a: self.m.groups(*a))
        if name in ('start', 'end', 'span'): return Builtin(name, lambda *a: getattr(self.m, name)(*a))
        return None
    def subst(self, S): return self

class PatternV(object):
    def __init__(self, interp, p, flags=0):
        self.p = p; self.flags = flags; self.pytype = interp.OPAQUE
    def py_attr(self, interp, name):
        if name in ('match', 'search', 'findall', 'sub', 'split'):
            return Builtin(name, lambda *a: re_op(interp, name, self.p, *a, flags=self.flags))
        if name == 'pattern': return self.p
        return None
    def subst(self, S): return self

_recache = {}
def re_op(interp, op, p, *a, **k):
    flags = k.get('flags', 0)
    if isinstance(p, PatternV): flags = p.flags; p = p.p
    h = getattr(interp, 're_hook', None)
    if h is not None:
        r = h(interp, op, p, a)
        if r is not NotImplemented: return r
    if not isinstance(p, (bytes, str)): raise Unsupported('unknown regular expression')
    if not all(isinstance(x, (bytes, str, int)) for x in a):
        if op in ('match', 'search'):
            # the outcome is a function of the text
            if interp.E.decide(fun('re_%s_%s' % (op, intern_id(p)), values.I, values.B)(text_ident(a[0]))):
                return SVal(interp.E.fresh('match', values.I), notnone=True, notfalse=True, attrs={'*': None})
            return None
        raise Unsupported('regular expression on an unknown text')
    key = (p, flags)
    c = _recache.get(key)
    if c is None:
        c = _recache[key] = _re.compile(p, flags)
    a = list(a)
    if isinstance(p, bytes): a = [x.encode('latin-1') if isinstance(x, str) else x for x in a]
    else: a = [x.decode('latin-1') if isinstance(x, bytes) else x for x in a]
    r = getattr(c, op)(*a)
    if op in ('match', 'search'): return MatchV(interp, r) if r is not None else None
    if isinstance(r, list): return interp.E.new_list(tuple(r))
    return r

# ---------------------------------------------------------------- external modules

class OpaqueModule(ModuleV):
    """a module (or object) whose functions do nothing that matters here"""
    def __init__(self, name, result=None):
        ModuleV.__init__(self, name, {})
        self.result = result
    def getattr(self, n):
        if n.startswith('__'): return None
        return Builtin(self.name + '.' + n, lambda *a, **k: self.result)

def math_fn(interp):
    def fabs(x): return b_abs(interp, Flt.of(x))
    def sqrt(x):
        x = Flt.of(x)
        if not interp.truth(x >= 0): interp.py_raise('ValueError', b'math domain error')
        t = fun('sqrt', values.R, values.R)(x.t)
        interp.E.fact(z3.And(t >= 0, t * t == x.t))
        return Flt(t)
    def floor(x): return Flt(z3.ToReal(z3.ToInt(Flt.of(x).t)))
    def ceil(x): return Flt(-z3.ToReal(z3.ToInt(-Flt.of(x).t)))
    return {'fabs': Builtin('fabs', fabs), 'sqrt': Builtin('sqrt', sqrt), 'floor': Builtin('floor', floor), 'ceil': Builtin('ceil', ceil),
            'pi': Flt(Fraction(repr(_math.pi)))}

def llsd_parse(interp, data, *a):
    E = interp.E
    h = getattr(interp, 'llsd_hook', None)
    if h is not None: return h(interp, data)
    t = text_ident(data) if isinstance(data, (Rope,)) else E.ident(data)
    if not E.decide(fun('llsd_ok', values.I, values.B)(t)):
        raise PyExc(interp.instantiate(interp.import_module('llbase.llsd').ns['LLSDParseError'], [b'invalid llsd'], {}))
    return SVal(fun('llsd_parse', values.I, values.I)(t))

def llsd_format(interp, v):
    E = interp.E
    h = getattr(interp, 'llsd_format_hook', None)
    if h is not None: return h(interp, v)
    return OStr(fun('llsd_format', values.I, values.I)(E.ident(v)))

def external_module(interp, name):
    E = interp.E
    def exc_cls(n, base='Exception'):
        return ClassV(n, [interp.builtins[base]], {}, None)
    def mod(ns): return ModuleV(name, ns)
    f = lambda n, fn: Builtin(n, lambda *a, **k: fn(interp, *a, **k))
    if name == 'struct':
        return mod({'pack': f('pack', st_pack), 'unpack': f('unpack', st_unpack), 'calcsize': f('calcsize', st_calcsize),
                    'error': exc_cls('error')})
    if name == 'logging':
        lg = OpaqueModule('logger')
        m = mod({'getLogger': Builtin('getLogger', lambda *a: lg)})
        m.getattr = lambda n: (10 if n.isupper() else Builtin(n, NOOP))
        return m
    if name == 'traceback':
        return mod({'print_exc': Builtin('print_exc', NOOP), 'format_exc': Builtin('format_exc', lambda *a: ostr()),
                    'print_stack': Builtin('print_stack', NOOP)})
    if name == 'uuid':
        interp.UUIDCLS = ClassV('UUID', [interp.OBJECT], {}, None, uuid_host)
        return mod({'UUID': interp.UUIDCLS, 'uuid4': f('uuid4', uuid4), 'uuid1': f('uuid1', uuid4)})
    if name == 'math': return mod(math_fn(interp))
    if name == 're':
        ns = {n: f(n, lambda i, p, *a, n=n, **k: re_op(i, n, p, *a, **k)) for n in ('match', 'search', 'findall', 'sub', 'split')}
        ns['compile'] = f('compile', lambda i, p, flags=0: PatternV(i, p, flags))
        for n in ('I', 'M', 'S', 'IGNORECASE', 'DOTALL', 'MULTILINE'): ns[n] = int(getattr(_re, n))
        return mod(ns)
    if name == 'string':
        return mod({'atoi': f('atoi', lambda i, s, b=10: int_host(i, None, [s, b], {})), 'atol': f('atol', lambda i, s, b=10: int_host(i, None, [s, b], {})),
                    'join': f('join', lambda i, l, s=b' ': str_join(i, s, l)), 'strip': f('strip', lambda i, s: i.call(i.getattr(s, 'strip'), [], {})),
                    'digits': b'0123456789', 'hexdigits': b'0123456789abcdefABCDEF', 'whitespace': b'\t\n\x0b\x0c\r '})
    if name == 'llbase':
        return mod({})
    if name == 'llbase.llsd':
        return mod({'parse': f('parse', llsd_parse), 'format_xml': f('format_xml', llsd_format), 'LLSDParseError': exc_cls('LLSDParseError')})
    if name == 'eventlet': return mod({})
    if name in ('eventlet.api', 'eventlet.util', 'eventlet.coros'):
        m = OpaqueModule(name)
        return m
    if name == 'types':
        return mod({'ListType': interp.LIST, 'DictType': interp.DICT, 'StringType': interp.STR, 'UnicodeType': interp.UNICODE,
                    'TupleType': interp.TUPLE, 'IntType': interp.INT, 'FloatType': interp.FLOAT, 'NoneType': interp.NONETYPE,
                    'FunctionType': interp.FUNCTION, 'MethodType': interp.METHOD, 'BooleanType': interp.BOOL,
                    'StringTypes': (interp.STR, interp.UNICODE), 'LongType': interp.LONG, 'ObjectType': interp.OBJECT,
                    'FileType': interp.FILE, 'DictionaryType': interp.DICT})
    if name == 'time':
        return mod({'time': Builtin('time', lambda: Flt(E.fresh('time', values.R))), 'sleep': Builtin('sleep', NOOP)})
    if name == 'socket':
        return mod({'AF_INET': 2, 'SOCK_DGRAM': 2, 'SOCK_STREAM': 1, 'error': exc_cls('error', 'IOError'),
                    'timeout': exc_cls('timeout', 'IOError'), 'gaierror': exc_cls('gaierror', 'IOError'),
                    'socket': Builtin('socket', lambda *a, **k: SVal(E.fresh('sock', values.I), notnone=True, notfalse=True, attrs={'*': None}))})
    if name == 'urllib2':
        m = mod({'HTTPError': exc_cls('HTTPError', 'IOError'), 'URLError': exc_cls('URLError', 'IOError')})
        def http_error(i, cls, a, k):
            r = exc_host(i, cls, a, k)
            for n, v in zip(('filename', 'code', 'msg', 'hdrs', 'fp'), a): i.setattr(r, n, v)
            return r
        m.ns['HTTPError'].host = http_error
        m.getattr = lambda n: Builtin(n, lambda *a, **k: (_ for _ in ()).throw(Unsupported('urllib2.' + n)))
        return m
    if name == 'webob':
        m = mod({})
        m.getattr = lambda n: Builtin(n, lambda *a, **k: (_ for _ in ()).throw(Unsupported('webob.' + n)))
        return m
    if name == 'binascii':
        def unhex(i, s):
            if isinstance(s, (bytes, str)):
                try: return _binascii.unhexlify(s)
                except (ValueError, TypeError): i.py_raise('TypeError', b'Non-hexadecimal digit found')
            if not isinstance(s, (Rope, OStr, SName)): i.py_raise('TypeError', b'must be string')
            if isinstance(s, Rope):
                n = str_len(s)
                if not (int_mod(n, 2) == 0): i.py_raise('TypeError', b'Odd-length string')
                def code(c): return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
                def ishex(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))
                if not E.decide(z3.Const(E.uid('hex'), values.B)):
                    j = E.fresh('nothex', values.I)
                    E.assume_feasible(z3.And(j >= 0, j < iv(n)))
                    E.assume_feasible(z3.Not(ishex(index_str(s, SInt(j)))))
                    i.py_raise('TypeError', b'Non-hexadecimal digit found')
                def pair(k):
                    a, b = index_str(s, mkint(2 * iv(k))), index_str(s, mkint(2 * iv(k) + 1))
                    E.fact(z3.Implies(z3.And(iv(k) >= 0, iv(k) < iv(n) / 2), z3.And(ishex(a), ishex(b))))
                    return norm([BT(code(a) * 16 + code(b))])
                return norm([FS(Gen(pair), int_div(n, 2))])
            t = text_ident(s)
            if not E.decide(fun('ishex', values.I, values.B)(t)): i.py_raise('TypeError', b'Non-hexadecimal digit found')
            n = fun('len_unhex', values.I, values.I)(t)
            E.fact(n >= 0)
            return norm([AT(Atom('unhex', (t,), SInt(n)), 0, SInt(n))])
        def hexl(i, s):
            if isinstance(s, bytes): return _binascii.hexlify(s)
            return ostr()
        def opq(n):
            def g(i, s):
                if isinstance(s, bytes): return getattr(_binascii, n)(s)
                if not isinstance(s, (Rope, OStr, SName)): i.py_raise('TypeError', b'must be string')
                return OStr(fun(n, values.I, values.I)(text_ident(s)))
            return g
        return mod({'unhexlify': f('unhexlify', unhex), 'a2b_hex': f('a2b_hex', unhex), 'hexlify': f('hexlify', hexl), 'b2a_hex': f('b2a_hex', hexl),
                    'b2a_uu': f('b2a_uu', opq('b2a_uu')), 'b2a_base64': f('b2a_base64', opq('b2a_base64')), 'Error': exc_cls('Error')})
    if name == 'os':
        import posixpath
        return mod({'path': external_module(interp, 'os.path'), 'sep': b'/', 'environ': E.new_dict()})
    if name == 'os.path':
        c = lambda fn: (lambda i, *a: fn(*[x if isinstance(x, bytes) else x.encode() for x in a]))
        return mod({n: f(n, c(getattr(_os.path, n))) for n in ('join', 'dirname', 'basename', 'abspath', 'exists', 'isfile', 'splitext')})
    if name in ('array', 'pprint', 'sys', 'random', 'copy', 'itertools', 'operator', 'collections', 'datetime', 'functools', 'threading', 'Queue'):
        return special_module(interp, name)
    if name == 'cStringIO' or name == 'StringIO':
        return mod({'StringIO': Builtin('StringIO', lambda s=b'': make_file(interp, s))})
    return None

def special_module(interp, name):
    E = interp.E
    if name == 'copy':
        def cp(v):
            if isinstance(v, Ref):
                if v.kind in ('list', 'dict', 'set'): return E.alloc(v.kind, v.cls, E.heap[v.id])
                if v.kind == 'inst': return E.alloc('inst', v.cls, dict(E.heap[v.id]))
            return v
        def deep(v, memo=None):
            memo = {} if memo is None or not isinstance(memo, dict) else memo
            if isinstance(v, Ref):
                if v.id in memo: return memo[v.id]
                r = E.alloc(v.kind, v.cls, E.heap[v.id]); memo[v.id] = r
                c = E.heap[v.id]
                if v.kind == 'inst': E.heap[r.id] = {k: deep(x, memo) for k, x in c.items()}
                elif v.kind == 'list':
                    if c.concrete() is None: raise Unsupported('deepcopy')
                    E.heap[r.id] = lrope(tuple(deep(x, memo) for x in c.concrete()))
                elif v.kind == 'dict': E.heap[r.id] = DRep([(deep(k, memo), deep(x, memo)) for k, x in c.entries], c.dead, c.base)
                elif v.kind == 'set': E.heap[r.id] = tuple(deep(x, memo) for x in c)
                return r
            if isinstance(v, tuple): return tuple(deep(x, memo) for x in v)
            return v
        return ModuleV(name, {'copy': Builtin('copy', cp), 'deepcopy': Builtin('deepcopy', deep)})
    if name == 'operator':
        ns = {'itemgetter': Builtin('itemgetter', lambda k: Builtin('itemgetter', lambda o: getitem(interp, o, k))),
              'attrgetter': Builtin('attrgetter', lambda n: Builtin('attrgetter', lambda o: interp.getattr(o, name_of(interp, n))))}
        for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor')):
            ns[n] = Builtin(n, lambda a, b, op=op: interp.binop(op, a, b))
        return ModuleV(name, ns)
    if name == 'itertools':
        def chain(*a):
            out = LRope()
            for x in a:
                s = to_seq(interp, x)
                out = out.plus(s if isinstance(s, LRope) else lrope(tuple(s)))
            return IterV(interp, out)
        def islice(it, *a):
            its = host_items(interp, it)
            return IterV(interp, lrope(tuple(its[slice(*a)])))
        def repeat(x, n): return IterV(interp, lrope((x,) * n))
        return ModuleV(name, {'chain': Builtin('chain', chain), 'islice': Builtin('islice', islice), 'repeat': Builtin('repeat', repeat),
                              'izip': interp.builtins['zip'], 'imap': interp.builtins['map']})
    if name == 'functools':
        def partial(f, *a, **k): return Builtin('partial', lambda *b, **l: interp.call(f, list(a) + list(b), dict(k, **l)))
        return ModuleV(name, {'partial': Builtin('partial', partial), 'reduce': interp.builtins['reduce'],
                              'wraps': Builtin('wraps', lambda g: Builtin('id', lambda h: h))})
    if name == 'collections':
        def deque(it=(), maxlen=None):
            return list_host(interp, None, [it], {})
        def defaultdict(f=None, *a):
            d = dict_host(interp, interp.DICT, list(a), {})
            c = ClassV('defaultdict', [interp.DICT], {})
            def missing(self_, k):
                v = interp.call(f, [], {}); dict_set(interp, self_, k, v); return v
            b = Builtin('__missing__', missing); b.method = True
            c.ns['__missing__'] = b
            d.cls = c
            return d
        return ModuleV(name, {'defaultdict': Builtin('defaultdict', defaultdict), 'OrderedDict': interp.DICT})
    if name == 'sys':
        return ModuleV(name, {'maxint': 2 ** 63 - 1, 'byteorder': b'little', 'version_info': (2, 7, 3),
                              'exc_info': Builtin('exc_info', lambda: (interp.exc_stack[-1].cls, interp.exc_stack[-1], None) if interp.exc_stack else (None,) * 3),
                              'exc_clear': Builtin('exc_clear', NOOP),
                              'stdout': OpaqueModule('stdout'), 'stderr': OpaqueModule('stderr')})
    return OpaqueModule(name)
