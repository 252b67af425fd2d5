"""A symbolic interpreter for the Python 2 of the repository, over the parse trees Jython gives."""
import os, json
import z3
from fractions import Fraction
from values import *
import values
from ropes import *
from engine import *

class N(object):
    """a parse tree node"""
    def __repr__(self): return '<%s line %s>' % (self.k, self.line)

_STR_FIELDS = {('Str', 's')}

def build(j, owner=None, field=None):
    if j is None:
        return None
    t = j[0]
    if len(j) == 3 and isinstance(j[2], dict):
        n = N()
        n.k = t
        n.line = j[1]
        for f, v in j[2].items():
            setattr(n, f, build(v, t, f))
        return n
    if t == 'L':
        return [build(x, owner, field) for x in j[1]]
    if t == 's':
        if (owner, field) in _STR_FIELDS:
            return j[1].encode('latin-1')
        return j[1]
    if t == 'u':
        return j[1]
    if t == 'i':
        return int(j[1])
    if t == 'f':
        return float(j[1])
    if t == 'bool':
        return j[1]
    if isinstance(j, str):
        return j
    raise Unsupported('tree %r' % (j,))

class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v

class Frame(object):
    def __init__(self, glob, locals_, closure=(), func=None, cls=None, localset=None):
        self.glob = glob
        self.locals = locals_
        self.closure = closure
        self.func = func
        self.cls = cls
        self.localset = localset
        self.globals_decl = set()
        self.yields = None
        self.loopctx = []

def assigned_names(body, out=None, globs=None):
    if out is None:
        out = set(); globs = set()
        _assigned(body, out, globs)
        return out - globs
def _assigned(n, out, globs):
    if isinstance(n, list):
        for x in n:
            _assigned(x, out, globs)
        return
    if not isinstance(n, N):
        return
    if n.k in ('FunctionDef', 'ClassDef'):
        out.add(n.name)
        return
    if n.k == 'Lambda':
        return
    if n.k == 'Global':
        globs.update(n.names)
        return
    if n.k in ('Assign',):
        for t in n.targets:
            _targets(t, out)
    elif n.k in ('AugAssign', 'For', 'comprehension'):
        if n.k != 'comprehension' or True:
            _targets(n.target, out)
    elif n.k in ('Import', 'ImportFrom'):
        for a in n.names:
            if a.name != '*':
                out.add(a.asname or a.name.split('.')[0])
    elif n.k == 'ExceptHandler':
        if n.name is not None:
            _targets(n.name, out)
    elif n.k == 'With':
        if n.optional_vars is not None:
            _targets(n.optional_vars, out)
    for f, v in n.__dict__.items():
        if isinstance(v, (list, N)):
            _assigned(v, out, globs)
def _targets(t, out):
    if isinstance(t, str):
        out.add(t)
    elif t.k == 'Name':
        out.add(t.id)
    elif t.k in ('Tuple', 'List'):
        for x in t.elts:
            _targets(x, out)

def has_yield(n):
    if isinstance(n, list):
        return any(has_yield(x) for x in n)
    if not isinstance(n, N):
        return False
    if n.k == 'Yield':
        return True
    if n.k in ('FunctionDef', 'ClassDef', 'Lambda'):
        return False
    return any(has_yield(v) for v in n.__dict__.values() if isinstance(v, (list, N)))

class Interp(object):
    BreakX = BreakX
    ContinueX = ContinueX
    ReturnX = ReturnX
    def __init__(self, engine, trees, root):
        self.E = engine
        engine.interp = self
        self.trees = trees          # path -> json tree
        self.root = root
        self.built = {}
        self.modules = {}
        self.contracts = {}         # qualified name -> host function(interp, self, args, kwargs) or None
        self.stack = []
        self.touched = {}           # functions executed: qualified name -> count
        self.maxdepth = 60
        self.undo = []
        engine.heap = {}
        engine.next_id = 1
        engine.counters = {}
        engine.scope = ''
        engine.loopstack = []; engine.turns = []
        engine.wstack = []
        engine.dectrace = []
        engine.pcset = set(); engine.pc = []
        engine.solver = z3.Solver()
        engine.prefix = (); engine.pos = 0; engine.decisions = []; engine.work = []
        engine.log = []; engine.ghost = {}; engine.invs = []; engine.folds = []; engine.memo = {}; engine.keep = []
        engine.inputs = {}
        import models
        self.models = models
        models.install(self)

    # ------------------------------------------------------------ modules

    def find_module(self, name):
        base = os.path.join(self.root, *name.split('.'))
        for p in (os.path.join(base, '__init__.py'), base + '.py'):
            if p in self.trees:
                return p
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            self.import_module(parent)
        p = self.find_module(name)
        if p is None:
            m = self.models.external_module(self, name)
            if m is None:
                self.py_raise('ImportError', ('No module named ' + name).encode())
            self.modules[name] = m
        else:
            m = ModuleV(name, {'__name__': name.encode(), '__file__': p.encode()})
            m.path = p
            self.modules[name] = m
            m.package = name if p.endswith('__init__.py') else name.rsplit('.', 1)[0]
            if p not in self.built:
                self.built[p] = build(self.trees[p])
            tree = self.built[p]
            fr = Frame(m, m.ns)
            if name not in ('pyogp', 'pyogp.lib'):      # namespace packages: pkg_resources only
                self.exec_block(tree.body, fr)
        if '.' in name:
            par = self.modules[name.rsplit('.', 1)[0]]
            par.ns[name.rsplit('.', 1)[1]] = m
        return m

    def resolve_import(self, name, glob):
        """py2 implicit relative import first"""
        pkg = getattr(glob, 'package', None)
        if pkg:
            rel = pkg + '.' + name
            if self.find_module(rel) or self.find_module(rel.rsplit('.', 1)[0] if '.' in name else rel):
                if self.find_module(rel):
                    return rel
        return name

    # ------------------------------------------------------------ exceptions

    def make_exc(self, clsname, *args):
        cls = self.builtins[clsname] if isinstance(clsname, str) else clsname
        return self.E.alloc('inst', cls, {'args': tuple(args)})

    def py_raise(self, clsname, *args):
        raise PyExc(self.make_exc(clsname, *args))

    def exc_name(self, v):
        return v.cls.name

    # ------------------------------------------------------------ types

    def type_of(self, v):
        b = self.builtins
        if v is None: return self.NONETYPE
        if isinstance(v, (bool, SBool)): return self.BOOL
        if isinstance(v, (int, SInt)): return self.INT
        if isinstance(v, Flt): return self.FLOAT
        if isinstance(v, (bytes, Rope, SName)): return self.STR
        if isinstance(v, OStr): return self.STR
        if isinstance(v, (str, SUni)): return self.UNICODE
        if isinstance(v, tuple): return self.TUPLE
        if isinstance(v, Ref): return v.cls
        if isinstance(v, SRef): return v.schema.cls or self.OBJECT
        if isinstance(v, SVal): return v.typ or self.OPAQUE
        if isinstance(v, ClassV): return self.TYPE
        if isinstance(v, (FuncV,)): return self.FUNCTION
        if isinstance(v, BoundV): return self.METHOD
        if isinstance(v, Builtin): return self.BUILTINFN
        if isinstance(v, ModuleV): return self.MODULE
        if hasattr(v, 'pytype'): return v.pytype
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        return self.OBJECT

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            for c in cls:
                if self.isinstance_(v, c):
                    return True
            return False
        if isinstance(v, SVal) and v.typ is None:
            if not isinstance(cls, ClassV):
                raise Unsupported('isinstance')
            if cls is self.OBJECT:
                return True
            t = fun('isinst_' + cls.name, I, B)(v.t)
            return self.E.decide(t)
        if not isinstance(cls, ClassV):
            raise Unsupported('isinstance of %r' % (cls,))
        t = self.type_of(v)
        if t.subclass_of(cls):
            return True
        if cls.name == 'basestring' and t in (self.STR, self.UNICODE):
            return True
        if cls is self.builtins.get('long') and t is self.INT:
            return False
        return False

    # ------------------------------------------------------------ truth, equality

    def truth(self, v):
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, bytes, str, tuple)): return bool(v)
        if isinstance(v, (SBool, SInt)): return bool(v)
        if isinstance(v, Flt): return bool(v != 0)
        if isinstance(v, Rope):
            return self.truth(v.length() != 0) if not isinstance(v.length(), int) else v.length() != 0
        if isinstance(v, SName):
            return self.truth(v != b'')
        if isinstance(v, SUni):
            return self.truth(v.utf8 if isinstance(v.utf8, bytes) else v.utf8.length() != 0)
        if isinstance(v, OStr):
            return self.E.decide(fun('nonempty', I, B)(v.t))
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        if isinstance(v, SVal):
            if v.notfalse:
                return True
            if v.call is not None and v.typ is None:
                return True
            return self.E.decide(fun('truthy', I, B)(v.t))
        if isinstance(v, Ref):
            c = self.E.heap[v.id]
            if v.kind == 'list':
                return self.truth(c.length() != 0)
            if v.kind == 'dict':
                n = self.models.dict_len(self, v)
                return self.truth(n != 0) if is_int(n) else self.truth(n)
            if v.kind == 'set':
                return len(c) != 0
            for m in ('__nonzero__', '__len__'):
                f = v.cls.lookup(m)
                if f is not None:
                    return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        if isinstance(v, SRef):
            return True
        return True

    def py_eq(self, a, b):
        """a == b with user methods; a py value"""
        if isinstance(a, Ref) and a.kind == 'inst':
            f = a.cls.lookup('__eq__')
            if f is not None:
                return self.call(BoundV(f, a), [b], {})
            f = a.cls.lookup('__cmp__')
            if f is not None:
                return self.py_eq(self.call(BoundV(f, a), [b], {}), 0)
        if isinstance(b, Ref) and b.kind == 'inst':
            f = b.cls.lookup('__eq__')
            if f is not None:
                return self.call(BoundV(f, b), [a], {})
        if hasattr(a, 'py_eq'):
            return a.py_eq(self, b)
        if hasattr(b, 'py_eq'):
            return b.py_eq(self, a)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == 'list' and a.id != b.id and a.cls is b.cls:
            x, y = self.E.heap[a.id].concrete(), self.E.heap[b.id].concrete()
            if x is not None and y is not None:
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if not self.truth(self.py_eq(p, q)):
                        return False
                return True
        return self.E.eq(a, b)

    def not_(self, v):
        if isinstance(v, bool):
            return not v
        if isinstance(v, SBool):
            return mkbool(z3.Not(v.t))
        return not self.truth(v)

    def py_ne(self, a, b):
        if isinstance(a, Ref) and a.kind == 'inst':
            f = a.cls.lookup('__ne__')
            if f is not None:
                return self.call(BoundV(f, a), [b], {})
            f = a.cls.lookup('__eq__')
            if f is not None and a.cls.lookup('__cmp__') is None:
                # py2 does not derive != from ==
                return not (isinstance(b, Ref) and a.id == b.id)
        return self.not_(self.py_eq(a, b))

    # ------------------------------------------------------------ attributes

    def getattr(self, v, name, default=PyExc):
        try:
            return self._getattr(v, name)
        except PyExc as e:
            if default is not PyExc and e.value.cls.name == 'AttributeError':
                return default
            raise

    def class_attr(self, v, cls, name):
        a = cls.lookup(name)
        if a is None:
            return None
        return (self.bind(a, v, cls),)

    def bind(self, a, v, cls):
        if isinstance(a, StaticV): return a.f
        if isinstance(a, ClassMethodV): return BoundV(a.f, cls)
        if isinstance(a, PropertyV): return self.call(a.fget, [v], {})
        if isinstance(a, FuncV) or (isinstance(a, Builtin) and getattr(a, 'method', False)): return BoundV(a, v)
        return a

    def _getattr(self, v, name):
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        if isinstance(v, Ref) and v.kind == 'inst':
            p = v.cls.lookup(name)
            if isinstance(p, PropertyV):
                return self.call(p.fget, [v], {})
            d = self.E.heap[v.id]
            if name in d:
                x = d[name]
                if isinstance(x, Poison): raise PoisonRead(x.loc)
                return x
            if name == '__class__': return v.cls
            if name == '__dict__':
                return self.E.new_dict([(k.encode(), x) for k, x in d.items()])
            r = self.class_attr(v, v.cls, name)
            if r is not None: return r[0]
            if name == 'message' and self.is_exc(v):
                a = d.get('args', ())
                return a[0] if len(a) == 1 else b''
            f = v.cls.lookup('__getattr__')
            if f is not None:
                return self.call(BoundV(f, v), [name.encode()], {})
            r = self.models.host_attr(self, v, name)
            if r is not None: return r[0]
            self.py_raise('AttributeError', ("'%s' object has no attribute '%s'" % (v.cls.name, name)).encode())
        if isinstance(v, SRef):
            f = v.schema.fields.get(name)
            if f is not None:
                return f(*v.args)
            m = v.schema.methods.get(name)
            if m is not None:
                return Builtin(name, lambda *a, **k: m(v, *a, **k))
            if v.schema.cls is not None:
                r = self.class_attr(v, v.schema.cls, name)
                if r is not None: return r[0]
                if name == '__class__': return v.schema.cls
            raise Unsupported('field %s of %s' % (name, v.schema.name))
        if isinstance(v, SVal):
            if v.attrs is not None and name in v.attrs:
                a = v.attrs[name]
                return a(v) if callable(a) else a
            if v.attrs is not None and '*' not in v.attrs:
                self.py_raise('AttributeError', name.encode())
            if v.typ is not None:
                r = self.models.builtin_method(self, v, name)
                if r is not None: return r
            raise Unsupported('attribute %s of an unknown value' % name)
        if isinstance(v, ModuleV):
            if name in v.ns: return v.ns[name]
            if hasattr(v, 'getattr'):
                r = v.getattr(name)
                if r is not None: return r
            self.py_raise('AttributeError', ("module has no attribute '%s'" % name).encode())
        if isinstance(v, ClassV):
            a = v.lookup(name)
            if a is not None:
                if isinstance(a, StaticV): return a.f
                if isinstance(a, ClassMethodV): return BoundV(a.f, v)
                if isinstance(a, FuncV): return a
                return a
            if name == '__name__': return v.name.encode()
            if name == '__doc__': return None
            if name == '__bases__': return tuple(v.bases)
            r = self.models.class_method(self, v, name)
            if r is not None: return r
            self.py_raise('AttributeError', ("type object '%s' has no attribute '%s'" % (v.name, name)).encode())
        if isinstance(v, SuperV):
            cls = self.type_of(v.self_)
            i = cls.mro.index(v.cls)
            for c in cls.mro[i + 1:]:
                if name in c.ns:
                    return self.bind(c.ns[name], v.self_, cls)
            if name == '__init__':
                return Builtin('object.__init__', lambda *a, **k: None)
            self.py_raise('AttributeError', name.encode())
        if isinstance(v, FuncV):
            if name in ('__name__', 'func_name'): return v.name.encode()
            if name in v.attrs: return v.attrs[name]
            self.py_raise('AttributeError', name.encode())
        if isinstance(v, BoundV):
            if name in ('im_self', '__self__'): return v.self_
            if name in ('im_func', '__func__'): return v.f
            return self._getattr(v.f, name)
        r = self.models.builtin_method(self, v, name)
        if r is not None: return r
        self.py_raise('AttributeError', ("'%s' object has no attribute '%s'" % (self.type_of(v).name, name)).encode())

    def is_exc(self, v):
        return isinstance(v, Ref) and v.kind == 'inst' and v.cls.subclass_of(self.builtins['BaseException'])

    def setattr(self, v, name, x):
        if isinstance(v, Ref) and v.kind == 'inst':
            p = v.cls.lookup(name)
            if isinstance(p, PropertyV):
                if p.fset is None:
                    self.py_raise('AttributeError', b"can't set attribute")
                self.call(p.fset, [v, x], {})
                return
            f = v.cls.lookup('__setattr__')
            if f is not None and isinstance(f, FuncV):
                self.call(BoundV(f, v), [name.encode(), x], {})
                return
            self.setfield(v, name, x)
            return
        if isinstance(v, ModuleV):
            if self.E.loopstack:
                raise Unsupported('module attribute assigned in a loop')
            self.set_ns(v.ns, name, x)
            return
        if isinstance(v, ClassV):
            if self.E.loopstack:
                raise Unsupported('class attribute assigned in a loop')
            self.set_ns(v.ns, name, x)
            return
        if isinstance(v, FuncV):
            v.attrs[name] = x
            return
        raise Unsupported('assignment to an attribute of %r' % (v,))

    def set_ns(self, ns, name, x):
        if name in ns:
            old = ns[name]
            self.undo.append(lambda: ns.__setitem__(name, old))
        else:
            self.undo.append(lambda: ns.pop(name, None))
        ns[name] = x

    def setfield(self, ref, name, x):
        if ref.frozen:
            raise Unsupported('a copied loop object is modified')
        d = dict(self.E.heap[ref.id])
        d[name] = x
        self.E.heap[ref.id] = d
        for w in self.E.wstack:
            w.add(('f', ref.id, name))

    def putcontent(self, ref, c):
        self.E.put(ref, c)
        for w in self.E.wstack:
            w.add(('c', ref.id))

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs, star=None, dstar=None):
        """star / dstar: unknown further arguments (opaque callables only)"""
        if isinstance(f, Poison): raise PoisonRead(f.loc)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.self_] + list(args), kwargs, star, dstar)
        if isinstance(f, (StaticV, ClassMethodV)):
            return self.call(f.f, args, kwargs, star, dstar)
        if isinstance(f, SVal):
            if f.call is None:
                self.py_raise('TypeError', b'not callable')
            if star is not None or dstar is not None:
                return f.call(f, list(args) + ([('*', star)] if star is not None else []),
                              dict(kwargs, **({'**': dstar} if dstar is not None else {})))
            return f.call(f, list(args), dict(kwargs))
        if star is not None or dstar is not None:
            raise Unsupported('unknown star arguments')
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), dict(kwargs))
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ref) and f.kind == 'inst':
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
            self.py_raise('TypeError', b'object is not callable')
        if isinstance(f, SRef) and f.schema.cls is not None:
            m = f.schema.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
        if hasattr(f, 'py_call'):
            return f.py_call(self, args, kwargs)
        self.py_raise('TypeError', b'object is not callable')

    def instantiate(self, cls, args, kwargs):
        for c in cls.mro:
            if c.host is not None:
                return c.host(self, cls, list(args), dict(kwargs))
        q = self.qual_cls(cls)
        con = self.contracts.get(q)
        if con is not None:
            return con(self, cls, list(args), dict(kwargs))
        r = self.E.alloc('inst', cls, {})
        init = cls.lookup('__init__')
        if init is not None:
            self.call(BoundV(init, r), args, kwargs)
        elif args or kwargs:
            self.py_raise('TypeError', b'this constructor takes no arguments')
        return r

    def qual_cls(self, cls):
        return '%s.%s' % (cls.module.name if cls.module else '', cls.name)

    def qual(self, f):
        m = f.glob.name
        if f.cls is not None:
            return '%s.%s.%s' % (m, f.cls.name, f.name)
        return '%s.%s' % (m, f.name)

    def bind_args(self, f, args, kwargs):
        a = f.args
        names = a.args
        loc = {}
        n = len(names)
        nm = lambda x: x.id if x.k == 'Name' else None
        extra = args[n:]
        for p, v in zip(names, args):
            if p.k == 'Name':
                loc[p.id] = v
            else:
                self.assign_to_locals(p, v, loc)
        if extra and a.vararg is None:
            self.py_raise('TypeError', ('%s() takes %d arguments (%d given)' % (f.name, n, len(args))).encode())
        if a.vararg is not None:
            loc[a.vararg] = tuple(extra)
        kw = {}
        for k, v in kwargs.items():
            if any(nm(p) == k for p in names):
                if k in loc:
                    self.py_raise('TypeError', ("%s() got multiple values for keyword argument '%s'" % (f.name, k)).encode())
                loc[k] = v
            elif a.kwarg is not None:
                kw[k] = v
            else:
                self.py_raise('TypeError', ("%s() got an unexpected keyword argument '%s'" % (f.name, k)).encode())
        nd = len(f.defaults)
        for i, p in enumerate(names):
            if nm(p) is not None and nm(p) not in loc:
                j = i - (n - nd)
                if j < 0:
                    self.py_raise('TypeError', ('%s() takes %d arguments (%d given)' % (f.name, n, len(args))).encode())
                loc[nm(p)] = f.defaults[j]
        if a.kwarg is not None:
            loc[a.kwarg] = self.E.new_dict([(k.encode() if isinstance(k, str) else k, v) for k, v in kw.items()])
        return loc

    def assign_to_locals(self, t, v, loc):
        if t.k == 'Name':
            loc[t.id] = v
            return
        items = self.unpack(v, len(t.elts))
        for x, y in zip(t.elts, items):
            self.assign_to_locals(x, y, loc)

    def call_func(self, f, args, kwargs):
        q = self.qual(f)
        con = self.contracts.get(q)
        if con is not None:
            r = con(self, args, kwargs)
            if r is not NotImplemented:
                return r
        self.touched[q] = self.touched.get(q, 0) + 1
        if len(self.stack) > self.maxdepth:
            raise Unsupported('recursion deeper than %d in %s' % (self.maxdepth, q))
        loc = self.bind_args(f, args, kwargs)
        if f.islambda:
            fr = Frame(f.glob, loc, f.closure, f, f.cls)
            self.stack.append(q)
            try:
                return self.eval(f.body, fr)
            finally:
                self.stack.pop()
        if not hasattr(f, 'localset'):
            f.localset = assigned_names(f.body)
        fr = Frame(f.glob, loc, f.closure, f, f.cls, f.localset)
        self.stack.append(q)
        try:
            if f.isgen:
                fr.yields = self.E.new_list()
                def run():
                    try:
                        self.exec_block(f.body, fr)
                    except ReturnX:
                        pass
                self.eager(run)
                return self.models.IterV(self, self.E.get(fr.yields))
            try:
                self.exec_block(f.body, fr)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def eager(self, run):
        """run a generator at once: only right if it neither changes anything nor fails"""
        id0 = self.E.next_id
        w = set()
        ws = self.E.wstack
        self.E.wstack = ws + [w]
        try:
            run()
        except PyExc as e:
            raise Unsupported('a generator that fails: %s' % self.exc_name(e.value))
        finally:
            self.E.wstack = ws
        if any(l[1] < id0 - 1 for l in w):
            raise Unsupported('a generator that changes something')

    # ------------------------------------------------------------ statements

    def exec_block(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, 's_' + s.k, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (s.k, s.line))
        m(s, fr)

    def s_Expr(self, s, fr):
        if s.value.k == 'Str':
            return
        self.eval(s.value, fr)
    def s_Pass(self, s, fr): pass
    def s_Global(self, s, fr): fr.globals_decl.update(s.names)
    def s_Return(self, s, fr): raise ReturnX(self.eval(s.value, fr) if s.value is not None else None)
    def s_Break(self, s, fr): raise BreakX()
    def s_Continue(self, s, fr): raise ContinueX()
    def s_Print(self, s, fr):
        for v in s.values:
            self.eval(v, fr)
    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.py_raise('AssertionError')
    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)
    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)
    def s_AugAssign(self, s, fr):
        t = s.target
        if t.k == 'Name':
            cur = self.load_name(t.id, fr)
            self.assign(t, self.augop(s.op.k if isinstance(s.op, N) else s.op, cur, self.eval(s.value, fr)), fr)
        elif t.k == 'Attribute':
            o = self.eval(t.value, fr)
            a = self.mangle(t.attr, fr)
            cur = self.getattr(o, a)
            self.setattr(o, a, self.augop(s.op.k, cur, self.eval(s.value, fr)))
        elif t.k == 'Subscript':
            o = self.eval(t.value, fr)
            i = self.eval_slice(t.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(s.op.k, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')
    def augop(self, op, a, b):
        if isinstance(a, Ref) and a.kind == 'inst':
            nm = {'Add': '__iadd__', 'Sub': '__isub__'}.get(op)
            if nm:
                f = a.cls.lookup(nm)
                if f is not None:
                    return self.call(BoundV(f, a), [b], {})
        if isinstance(a, Ref) and a.kind == 'list' and op == 'Add':
            self.models.list_extend(self, a, b)
            return a
        return self.binop(op, a, b)
    def s_Delete(self, s, fr):
        for t in s.targets:
            self.delete(t, fr)
    def delete(self, t, fr):
        if t.k == 'Name':
            if t.id not in fr.locals:
                self.py_raise('NameError', t.id.encode())
            del fr.locals[t.id]
        elif t.k == 'Subscript':
            self.delitem(self.eval(t.value, fr), self.eval_slice(t.slice, fr))
        elif t.k == 'Attribute':
            o = self.eval(t.value, fr)
            a = self.mangle(t.attr, fr)
            if isinstance(o, Ref) and o.kind == 'inst' and a in self.E.heap[o.id]:
                d = dict(self.E.heap[o.id]); del d[a]
                self.E.heap[o.id] = d
                for w in self.E.wstack: w.add(('f', o.id, a))
            else:
                self.py_raise('AttributeError', a.encode())
        elif t.k in ('Tuple', 'List'):
            for x in t.elts:
                self.delete(x, fr)
        else:
            raise Unsupported('del')

    def s_Import(self, s, fr):
        for a in s.names:
            full = self.resolve_import(a.name, fr.glob)
            m = self.import_module(full)
            if a.asname:
                fr.locals[a.asname] = m
            else:
                top = a.name.split('.')[0]
                fr.locals[top] = self.modules[full] if '.' not in a.name else self.modules[top]
    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            pkg = fr.glob.package
            for _ in range(s.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = self.resolve_import(name, fr.glob)
        m = self.import_module(full)
        for a in s.names:
            if a.name == '*':
                for k, v in m.ns.items():
                    if not k.startswith('_'):
                        fr.locals[k] = v
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif self.find_module(full + '.' + a.name):
                v = self.import_module(full + '.' + a.name)
            else:
                v = None
                if full in ('llbase', 'eventlet', 'os'):
                    v = self.import_module(full + '.' + a.name)
                elif hasattr(m, 'getattr'):
                    v = m.getattr(a.name)
                if v is None:
                    self.py_raise('ImportError', ('cannot import name ' + a.name).encode())
            fr.locals[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        v = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        fr.locals[self.mangle(s.name, fr)] = v

    def make_func(self, s, fr):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        clo = fr.closure
        if fr.func is not None:
            clo = (fr,) + tuple(fr.closure)
        cls = fr.cls
        f = FuncV(s.name, s.args, s.body, defaults, fr.glob, clo, cls, has_yield(s.body))
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        cls = ClassV(s.name, bases, {}, fr.glob)
        cfr = Frame(fr.glob, cls.ns, fr.closure if fr.func is None else (fr,) + tuple(fr.closure), None, cls)
        self.exec_block(s.body, cfr)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, fr), [v], {})
        fr.locals[s.name] = v

    def s_Raise(self, s, fr):
        if s.type is None:
            if not self.exc_stack:
                self.py_raise('TypeError', b'no active exception')
            raise PyExc(self.exc_stack[-1])
        t = self.eval(s.type, fr)
        if isinstance(t, ClassV):
            if s.inst is not None:
                i = self.eval(s.inst, fr)
                if self.is_exc(i) and i.cls.subclass_of(t):
                    raise PyExc(i)
                raise PyExc(self.instantiate(t, [i] if not isinstance(i, tuple) else list(i), {}))
            raise PyExc(self.instantiate(t, [], {}))
        if self.is_exc(t):
            raise PyExc(t)
        if isinstance(t, SVal):
            raise PyExc(t)
        self.py_raise('TypeError', b'exceptions must be classes or instances')

    exc_stack = []

    def exc_matches(self, v, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(v, x) for x in t)
        if not isinstance(t, ClassV):
            raise Unsupported('except %r' % (t,))
        return v.cls.subclass_of(t)

    def s_TryExcept(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except PyExc as e:
            v = e.value
            depth = len(self.exc_stack)
            for h in s.handlers:
                if h.type is None or self.exc_matches(v, self.eval(h.type, fr)):
                    if h.name is not None:
                        self.assign(h.name, v, fr)
                    self.exc_stack = self.exc_stack + [v]
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.exc_stack = self.exc_stack[:depth]
                    return
            raise
        else:
            self.exec_block(s.orelse, fr)

    def s_TryFinally(self, s, fr):
        try:
            self.exec_block(s.body, fr)
        except (PyExc, BreakX, ContinueX, ReturnX) as e:
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def s_With(self, s, fr):
        c = self.eval(s.context_expr, fr)
        x = self.call(self.getattr(c, '__exit__'), [None, None, None], {}) if False else None
        v = self.call(self.getattr(c, '__enter__'), [], {})
        if s.optional_vars is not None:
            self.assign(s.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except PyExc as e:
            if not self.truth(self.call(self.getattr(c, '__exit__'), [e.value.cls, e.value, None], {})):
                raise
            return
        except (BreakX, ContinueX, ReturnX):
            self.call(self.getattr(c, '__exit__'), [None, None, None], {})
            raise
        self.call(self.getattr(c, '__exit__'), [None, None, None], {})

    def s_While(self, s, fr):
        # unrolled while the test is known, cut as soon as it is not
        import loops
        count = 0
        forks = 0
        while True:
            pos = self.E.pos
            v = self.eval(s.test, fr)
            k = self.known_truth(v)
            if self.E.pos != pos:
                forks += 1
                if forks > 4: raise Unsupported('the number of turns of an unrolled loop is not known')
            if k is None:
                loops.sym_while(self, s, fr, count)
                return
            if not k:
                self.exec_block(s.orelse, fr)
                return
            count += 1
            if count > 200000:
                raise Unsupported('loop does not end')
            try:
                self.exec_block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                pass

    def known_truth(self, v):
        """truth value if it is the same on all paths from here, else None"""
        if isinstance(v, (SBool, SInt)):
            t = z3.simplify(v.t if isinstance(v, SBool) else v.t != 0)
            if z3.is_true(t): return True
            if z3.is_false(t): return False
            if self.nocut: return self.truth(v)
            return None
        if isinstance(v, Rope):
            n = v.length()
            if isinstance(n, int): return n != 0
            return None
        if isinstance(v, Ref) and v.kind == 'list':
            n = self.E.get(v).length()
            if isinstance(n, int): return n != 0
            return None
        if isinstance(v, (SVal, OStr, SName)):
            return None if not self.nocut else self.truth(v)
        return self.truth(v)
    nocut = False

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        self.for_loop(it, lambda x: self.assign(s.target, x, fr), lambda: self.exec_block(s.body, fr),
                      lambda: self.exec_block(s.orelse, fr), fr)

    def for_loop(self, it, bind, body, orelse, fr):
        import loops
        if isinstance(it, Poison): raise PoisonRead(it.loc)
        if isinstance(it, Ref) and it.kind == 'list':
            # python iterates over the live list by index
            i = 0
            while True:
                c = self.E.get(it)
                items = c.concrete()
                if items is None:
                    if i == 0:
                        return loops.sym_for(self, c, bind, body, orelse, fr, live=it)
                    n = c.length()
                    if isinstance(n, int):
                        if i >= n: break
                        x = c.at(i)
                    else:
                        raise Unsupported('list becomes unknown while iterating over it')
                else:
                    if i >= len(items): break
                    x = items[i]
                i += 1
                bind(x)
                ts = self.E.turns
                self.E.enter_turn(ts, i - 1)
                try:
                    body()
                except BreakX:
                    return
                except ContinueX:
                    pass
                finally:
                    self.E.turns = ts
            orelse()
            return
        if isinstance(it, Ref) and (it.kind in ('dict', 'set') or it.kind == 'iter' and it.live):
            if it.kind != 'iter':
                it = self.models.b_iter(self, it)
            live, body0 = it, body
            self.models.check_live(self, live)
            def body():
                try:
                    body0()
                except ContinueX:
                    pass
                self.models.check_live(self, live)
        seq = self.models.to_seq(self, it)
        if isinstance(seq, LRope):
            items = seq.concrete()
            if items is None:
                n = seq.length()
                if isinstance(n, int) and n <= 64:
                    items = [seq.at(i) for i in range(n)]
                else:
                    return loops.sym_for(self, seq, bind, body, orelse, fr)
        else:
            items = seq
        ts = self.E.turns
        for i, x in enumerate(items):
            bind(x)
            self.E.enter_turn(ts, i)
            try:
                body()
            except BreakX:
                return
            except ContinueX:
                pass
            finally:
                self.E.turns = ts
        orelse()

    # ------------------------------------------------------------ assignment

    def mangle(self, name, fr):
        if fr.cls is not None and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (fr.cls.name.lstrip('_'), name)
        return name

    def assign(self, t, v, fr):
        if isinstance(t, str):
            fr.locals[t] = v
            return
        k = t.k
        if k == 'Name':
            n = self.mangle(t.id, fr)
            if n in fr.globals_decl:
                if self.E.loopstack: raise Unsupported('global assigned in a loop')
                self.set_ns(fr.glob.ns, n, v)
            else:
                fr.locals[n] = v
        elif k == 'Attribute':
            self.setattr(self.eval(t.value, fr), self.mangle(t.attr, fr), v)
        elif k == 'Subscript':
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_slice(t.slice, fr), v)
        elif k in ('Tuple', 'List'):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment to %s' % k)

    def unpack(self, v, n):
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        seq = self.models.to_seq(self, v)
        if isinstance(seq, LRope):
            items = seq.concrete()
            if items is None:
                m = seq.length()
                if not (m == n):
                    self.py_raise('ValueError', b'unpack')
                items = [seq.at(i) for i in range(n)]
        else:
            items = list(seq)
        if len(items) != n:
            self.py_raise('ValueError', b'need more values to unpack')
        return items

    # ------------------------------------------------------------ expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + e.k, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (e.k, e.line))
        return m(e, fr)

    def e_Num(self, e, fr):
        if isinstance(e.n, float):
            return Flt(Fraction(repr(e.n)))
        return e.n
    def e_Str(self, e, fr): return e.s
    def e_Name(self, e, fr): return self.load_name(self.mangle(e.id, fr), fr)

    def load_name(self, n, fr):
        if n in fr.locals:
            v = fr.locals[n]
            if isinstance(v, Poison): raise PoisonRead(v.loc)
            return v
        if fr.localset is not None and n in fr.localset and n not in fr.globals_decl:
            self.py_raise('UnboundLocalError', ("local variable '%s' referenced before assignment" % n).encode())
        for c in fr.closure:
            if n in c.locals:
                v = c.locals[n]
                if isinstance(v, Poison): raise PoisonRead(v.loc)
                return v
        if n in fr.glob.ns:
            return fr.glob.ns[n]
        if n in self.builtins:
            return self.builtins[n]
        self.py_raise('NameError', ("name '%s' is not defined" % n).encode())

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr): return tuple(self.eval(x, fr) for x in e.elts)
    def e_List(self, e, fr): return self.E.new_list([self.eval(x, fr) for x in e.elts])
    def e_Dict(self, e, fr):
        d = self.E.new_dict()
        for k, v in zip(e.keys, e.values):
            self.setitem(d, self.eval(k, fr), self.eval(v, fr))
        return d
    def e_Set(self, e, fr):
        return self.call(self.builtins['set'], [self.e_List(e, fr)], {})
    def e_Lambda(self, e, fr):
        f = FuncV('<lambda>', e.args, e.body, [self.eval(d, fr) for d in e.args.defaults], fr.glob,
                  (fr,) + tuple(fr.closure) if fr.func is not None else fr.closure, fr.cls, False, True)
        return f
    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)
    def e_Repr(self, e, fr):
        return self.models.py_repr(self, self.eval(e.value, fr))
    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        self.models.list_append(self, fr.yields, v)
        return None

    def e_BoolOp(self, e, fr):
        op = e.op.k if isinstance(e.op, N) else e.op
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if op == 'And' and not t: return v if not isinstance(v, SBool) else False
            if op == 'Or' and t: return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        op = e.op.k if isinstance(e.op, N) else e.op
        v = self.eval(e.operand, fr)
        if op == 'Not': return self.not_(v)
        if op == 'USub':
            if isinstance(v, SBool): v = mkint(iv(v))
            if isinstance(v, (int, SInt, Flt)): return -v
            if isinstance(v, Ref) and v.kind == 'inst' and v.cls.lookup('__neg__'):
                return self.call(BoundV(v.cls.lookup('__neg__'), v), [], {})
            if isinstance(v, SVal): return self.models.opaque_op(self, 'neg', v)
            self.py_raise('TypeError', b'bad operand type for unary -')
        if op == 'UAdd': return v
        if op == 'Invert': return -v - 1
        raise Unsupported('unary ' + op)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op.k if isinstance(e.op, N) else e.op, a, b)

    _DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
               'Div': ('__div__', '__rdiv__'), 'BitXor': ('__xor__', '__rxor__'), 'BitAnd': ('__and__', '__rand__'),
               'BitOr': ('__or__', '__ror__'), 'Mod': ('__mod__', '__rmod__')}

    def binop(self, op, a, b):
        if isinstance(a, Poison): raise PoisonRead(a.loc)
        if isinstance(b, Poison): raise PoisonRead(b.loc)
        if isinstance(a, Ref) and a.kind == 'inst' and op in self._DUNDER:
            f = a.cls.lookup(self._DUNDER[op][0])
            if f is not None: return self.call(BoundV(f, a), [b], {})
        if isinstance(b, Ref) and b.kind == 'inst' and op in self._DUNDER:
            f = b.cls.lookup(self._DUNDER[op][1])
            if f is not None: return self.call(BoundV(f, b), [a], {})
        num = lambda v: isinstance(v, (int, SInt, SBool, Flt))
        if num(a) and num(b):
            if isinstance(a, SBool): a = mkint(iv(a))
            if isinstance(b, SBool): b = mkint(iv(b))
            if isinstance(a, bool): a = int(a)
            if isinstance(b, bool): b = int(b)
            fl = isinstance(a, Flt) or isinstance(b, Flt)
            if op == 'Add': return a + b
            if op == 'Sub': return a - b
            if op == 'Mult': return a * b
            if op == 'Div' or op == 'FloorDiv':
                if fl:
                    if op == 'FloorDiv': raise Unsupported('float //')
                    return Flt.of(a) / Flt.of(b)
                if not isinstance(b, int) and b == 0 or b == 0:
                    self.py_raise('ZeroDivisionError', b'integer division or modulo by zero')
                return int_div(a, b)
            if op == 'Mod':
                if fl: raise Unsupported('float %')
                if b == 0:
                    self.py_raise('ZeroDivisionError', b'integer division or modulo by zero')
                return int_mod(a, b)
            if op == 'Pow':
                if isinstance(b, int) and 0 <= b <= 8:
                    r = 1
                    for _ in range(b): r = r * a
                    return r
                if isinstance(a, int) and isinstance(b, int) and b >= 0: return a ** b
                raise Unsupported('**')
            if fl: self.py_raise('TypeError', b'unsupported operand type(s)')
            if op == 'BitAnd':
                return int_and(a, b)
            if op == 'BitOr': return int_or(a, b)
            if op == 'BitXor': return int_xor(a, b)
            if op == 'LShift': return int_shl(a, b)
            if op == 'RShift': return int_shr(a, b)
            raise Unsupported('operator ' + op)
        r = self.models.binop(self, op, a, b)
        if r is NotImplemented:
            self.py_raise('TypeError', ('unsupported operand type(s) for %s' % op).encode())
        return r

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        res = None
        for op, x in zip(e.ops, e.comparators):
            b = self.eval(x, fr)
            r = self.compare(op.k if isinstance(op, N) else op, a, b)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return False
            res = True
            a = b
        return res

    def compare(self, op, a, b):
        if isinstance(a, Poison): raise PoisonRead(a.loc)
        if isinstance(b, Poison): raise PoisonRead(b.loc)
        if op == 'Eq': return self.py_eq(a, b)
        if op == 'NotEq': return self.py_ne(a, b)
        if op == 'Is': return self.is_(a, b)
        if op == 'IsNot': return self.not_(self.is_(a, b))
        if op == 'In': return self.models.contains(self, b, a)
        if op == 'NotIn': return self.not_(self.models.contains(self, b, a))
        num = lambda v: isinstance(v, (int, SInt, SBool, Flt))
        if num(a) and num(b):
            if isinstance(a, SBool): a = mkint(iv(a))
            if isinstance(b, SBool): b = mkint(iv(b))
            if op == 'Lt': return a < b
            if op == 'LtE': return a <= b
            if op == 'Gt': return a > b
            if op == 'GtE': return a >= b
        if isinstance(a, (bytes, str, tuple)) and isinstance(b, (bytes, str, tuple)) and type(a) is type(b) \
                and not isinstance(a, tuple):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, SVal) or isinstance(b, SVal):
            return SBool(self.E.fresh('cmp', B))
        if a is None and num(b):       # py2: None is less than any number
            return op in ('Lt', 'LtE')
        if b is None and num(a):
            return op in ('Gt', 'GtE')
        if isinstance(a, (SName, bytes)) and isinstance(b, (SName, bytes)):
            # names: an unknown total order that agrees with equality
            f = fun('name_rank', I, I)
            x, y = (v.t if isinstance(v, SName) else z3.IntVal(values.intern_id(v)) for v in (a, b))
            self.E.fact((f(x) == f(y)) == (x == y))
            return mkbool({'Lt': f(x) < f(y), 'LtE': f(x) <= f(y), 'Gt': f(x) > f(y), 'GtE': f(x) >= f(y)}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            for p, q in zip(a, b):
                if not self.truth(self.py_eq(p, q)):
                    return self.compare(op, p, q)
            return {'Lt': len(a) < len(b), 'LtE': len(a) <= len(b), 'Gt': len(a) > len(b), 'GtE': len(a) >= len(b)}[op]
        if is_bytes(a) and is_bytes(b):
            n, m = str_len(a), str_len(b)
            if isinstance(n, int) and isinstance(m, int) and n <= 64 and m <= 64:
                for i in range(min(n, m)):
                    x, y = index_str(a, i), index_str(b, i)
                    if not self.truth(mkbool(x == y)):
                        return self.compare(op, mkint(x), mkint(y))
                return self.compare(op, n, m)
        raise Unsupported('ordering of %r and %r' % (a, b))

    def is_(self, a, b):
        if a is b: return True
        if isinstance(a, (SVal,)) or isinstance(b, (SVal,)):
            return self.E.eq(a, b)
        if isinstance(a, SRef) and isinstance(b, SRef): return self.E.eq(a, b)
        if a is None or b is None: return False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)): return self.E.eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref): return a.id == b.id
        if isinstance(a, ClassV) or isinstance(b, ClassV): return a is b
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)): return False
            raise Unsupported('identity of ints')
        return False

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        if isinstance(f, Builtin) and getattr(f, 'special', None):
            return f.special(self, e, fr)
        args = [self.eval(a, fr) for a in e.args]
        kw = {}
        for k in e.keywords:
            kw[k.arg] = self.eval(k.value, fr)
        star = dstar = None
        if e.starargs is not None:
            s = self.eval(e.starargs, fr)
            if isinstance(s, SVal):
                star = s
            else:
                seq = self.models.to_seq(self, s)
                if isinstance(seq, LRope):
                    if seq.concrete() is None:
                        n = seq.length()
                        if isinstance(n, int): seq = [seq.at(i) for i in range(n)]
                        else: raise Unsupported('unknown star arguments')
                    else:
                        seq = seq.concrete()
                args.extend(seq)
        if e.kwargs is not None:
            d = self.eval(e.kwargs, fr)
            if isinstance(d, SVal):
                dstar = d
            else:
                for k, v in self.models.dict_items(self, d):
                    if isinstance(k, bytes): k = k.decode('latin-1')
                    if not isinstance(k, str): raise Unsupported('symbolic keyword')
                    kw[k] = v
        return self.call(f, args, kw, star, dstar)

    def eval_slice(self, s, fr):
        if s.k == 'Index': return self.eval(s.value, fr)
        if s.k == 'Slice':
            f = lambda x: self.eval(x, fr) if x is not None else None
            return SliceV(f(s.lower), f(s.upper), f(s.step))
        raise Unsupported('slice %s' % s.k)

    def e_Subscript(self, e, fr):
        return self.getitem(self.eval(e.value, fr), self.eval_slice(e.slice, fr))

    def getitem(self, o, i): return self.models.getitem(self, o, i)
    def setitem(self, o, i, v): return self.models.setitem(self, o, i, v)
    def delitem(self, o, i): return self.models.delitem(self, o, i)
    def dict_lookup(self, rep, k): return self.models.dict_lookup(self, rep, k)

    def e_ListComp(self, e, fr):
        out = self.E.new_list()
        self.comp(e.generators, 0, fr, lambda: self.models.list_append(self, out, self.eval(e.elt, fr)))
        return out
    def e_GeneratorExp(self, e, fr):
        # the generator expression has its own scope; evaluated eagerly
        sub = Frame(fr.glob, dict(fr.locals), (fr,) + tuple(fr.closure), fr.func, fr.cls, None)
        out = self.E.new_list()
        self.eager(lambda: self.comp(e.generators, 0, sub, lambda: self.models.list_append(self, out, self.eval(e.elt, sub))))
        return self.models.IterV(self, self.E.get(out))
    def e_SetComp(self, e, fr):
        return self.call(self.builtins['set'], [self.e_ListComp(e, fr)], {})
    def e_DictComp(self, e, fr):
        out = self.E.new_dict()
        self.comp(e.generators, 0, fr, lambda: self.setitem(out, self.eval(e.key, fr), self.eval(e.value, fr)))
        return out
    def comp(self, gens, i, fr, emit):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        def body():
            for c in g.ifs:
                if not self.truth(self.eval(c, fr)):
                    return
            self.comp(gens, i + 1, fr, emit)
        self.for_loop(self.eval(g.iter, fr), lambda x: self.assign(g.target, x, fr), body, lambda: None, fr)
