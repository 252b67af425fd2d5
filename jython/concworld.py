# The world of the contracts on the real code (Python 2 under Jython): inputs are given or drawn,
# checks are evaluated.
import random, struct, sys, binascii, types

class CheckFailed(Exception):
    def __init__(self, name, detail=''):
        Exception.__init__(self, name, detail)
        self.name = name; self.detail = detail
class Skip(Exception):
    pass

class Outcome(object):
    def __init__(self, ok, value, exc=None, names=()):
        self.ok = ok; self.value = value; self.exc = exc; self.names = names
    def __repr__(self):
        return 'value %s' % short(self.value) if self.ok else 'raises %s%s' % (self.names[:1], short(getattr(self.exc, 'args', ''))) 

def short(v, n=300):
    try:
        s = repr(v)
    except:
        s = '<unprintable %s>' % type(v).__name__
    return s if len(s) <= n else s[:n] + '...'

class Opaque(object):
    def __init__(self, k): self.k = k
    def __repr__(self): return '<opaque %s>' % self.k

class Stub(object):
    pass

class Callback(object):
    def __init__(self, k, f): self.k = k; self.f = f
    def __call__(self, *a, **k): return self.f(self, a, k)
    def __eq__(self, o): return isinstance(o, Callback) and o.k == self.k
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.k)
    def __repr__(self): return '<callback %s>' % self.k

class SpecObj(object):
    def __init__(self, fields, cls): self.fields = fields; self.cls = cls
    def __repr__(self): return 'SpecObj(%r)' % (self.fields,)

class Fold(object):
    def __init__(self, init, step):
        self.s = [init if not (isinstance(init, tuple) and len(init) == 1) else init[0]]
        self.step = step
    def at(self, n):
        while len(self.s) <= n: self.s.append(self.step(self.s[-1], len(self.s) - 1))
        return self.s[n]

INTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 500, 511, 512,
        1000, 1024, 1400, 1500, 2048, 4095, 4096, 8192, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1,
        2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
INTS = INTS + [-x for x in INTS if x]
FLOATS = [0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 2.0, 1.5, -3.75, 100.125, 1e-3, -1e-3, 1e10, -1e10, 0.1, 0.7, 0.9999, 128.0, 255.0, 256.0, -128.5, 3.0e38, 1e-30, 1.0 / 3]
BYTES = [0, 0, 0, 1, 2, 3, 9, 10, 13, 32, 34, 39, 48, 65, 97, 123, 127, 128, 129, 192, 200, 254, 255, 255]

class ConcWorld(object):
    sym = False
    def __init__(self, seed=0, choices=None, mined=None, base=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.replay = choices
        self.used = {}
        self.idx = ()
        self.nchecks = 0
        self.mined_ints, self.mined_strs = mined or ([], [])
        self.base = base if base is not None else {}
        self.prefix = ''
        self.opq = {}
        self.undo = []

    # inputs
    def _key(self, name):
        return name if not self.idx else '%s[%s]' % (name, ','.join([str(i) for i in self.idx]))
    def _pick(self, name, draw, fit=None):
        k = self._key(name)
        if k in self.used:
            return self.used[k]
        v = None
        if self.replay is not None and k in self.replay:
            v = self.replay[k]
            if fit is not None: v = fit(v)
        if v is None:
            v = draw()
        self.used[k] = v
        return v
    def int(self, name, lo=None, hi=None):
        def ok(v): return (lo is None or v >= lo) and (hi is None or v <= hi)
        def draw():
            r = self.rng.random()
            if lo is not None and hi is not None:
                if hi - lo <= 8: return self.rng.randint(lo, hi)
                if r < 0.15: return self.rng.choice([lo, hi, min(lo + 1, hi), max(hi - 1, lo)])
                if r < 0.3: return self.rng.randint(lo, hi)
            for _ in range(12):
                if self.mined_ints and self.rng.random() < 0.35:
                    v = self.rng.choice(self.mined_ints) + self.rng.choice([0, 0, 0, 1, -1])
                else:
                    v = self.rng.choice(INTS)
                if ok(v): return v
            if lo is not None and hi is not None: return self.rng.randint(lo, hi)
            if lo is not None: return lo + self.rng.randint(0, 20)
            if hi is not None: return hi - self.rng.randint(0, 20)
            return self.rng.randint(-20, 20)
        def fit(v):
            v = int(v)
            if not ok(v): return None
            return v
        return self._pick(name, draw, fit)
    def bool(self, name):
        return self._pick(name, lambda: self.rng.random() < 0.5, bool)
    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]
    def bytes(self, name, n=None, lo=None, hi=None, where=None, draw=None):
        given = draw
        def draw():
            if given is not None: return given(self.rng)
            m = n
            if m is None:
                a = lo or 0
                b = hi if hi is not None else a + 40
                r = self.rng.random()
                if r < 0.2: m = a
                elif r < 0.3 and b < 1000: m = b
                elif r < 0.85: m = self.rng.randint(a, min(b, a + 24))
                else: m = self.rng.randint(a, min(b, a + 300))
            r = self.rng.random()
            if r < 0.15 and self.mined_strs and n is None:
                s = self.rng.choice(self.mined_strs)
                if (lo is None or len(s) >= lo) and (hi is None or len(s) <= hi): return s
            if r < 0.4: return ''.join([chr(self.rng.choice(BYTES)) for _ in range(m)])
            if r < 0.5: return chr(self.rng.choice(BYTES)) * m
            if r < 0.6: return ''.join([chr(self.rng.choice([0, 0, 0, 1, 2, 255])) for _ in range(m)])
            if r < 0.7: return ''.join([chr(self.rng.randint(32, 126)) for _ in range(m)])
            return ''.join([chr(self.rng.randint(0, 255)) for _ in range(m)])
        def fit(v):
            if n is not None and len(v) != n: v = (v + '\0' * n)[:n]
            if lo is not None and len(v) < lo: return None
            if hi is not None and len(v) > hi: return None
            if where is not None and not all([where(lambda k: ord(v[k]), i, len(v)) for i in range(len(v))]): return None
            return v
        return self._pick(name, draw, fit)
    def name(self, name):
        def draw():
            if self.mined_strs and self.rng.random() < 0.3: return self.rng.choice(self.mined_strs)
            return 'Name%d' % self.rng.randint(0, 4)
        def fit(v):
            if isinstance(v, dict): return 'Name%d' % v['name']
            return v
        return self._pick(name, draw, fit)
    def opaque(self, name, notnone=True):
        def draw():
            if not notnone and self.rng.random() < 0.3: return self.rng.choice([None, 0, '', False, 'text', 5])
            return Opaque(self.rng.randint(0, 10 ** 6))
        def fit(v): return self._opq(v['opaque']) if isinstance(v, dict) else v
        return self._pick(name, draw, fit)
    def _opq(self, k):
        if k not in self.opq: self.opq[k] = Opaque(k)
        return self.opq[k]
    def real(self, name, lo=None, hi=None):
        def draw():
            for _ in range(10):
                v = self.rng.choice(FLOATS) if self.rng.random() < 0.6 else self.rng.uniform(-1000, 1000)
                if (lo is None or v >= lo) and (hi is None or v <= hi): return v
            return self.rng.uniform(lo if lo is not None else hi - 1, hi if hi is not None else lo + 1)
        def fit(v):
            v = float(v)
            if (lo is not None and v < lo) or (hi is not None and v > hi): return None
            return v
        return self._pick(name, draw, fit)
    def f32(self, name):
        def r(v):
            try: return struct.unpack('<f', struct.pack('<f', v))[0]
            except (OverflowError, struct.error): return None
        return self._pick(name, lambda: r(self.rng.choice(FLOATS) if self.rng.random() < 0.5 else self.rng.uniform(-500, 500)), lambda v: r(float(v)))
    def uni(self, name):
        def draw():
            return u''.join([unichr(self.rng.choice([32, 65, 97, 122, 0xe9, 0x20ac, 0x3b1, 0x416, 0x4e2d, 48])) for _ in range(self.rng.randint(0, 8))])
        return self._pick(name, draw, lambda v: None if isinstance(v, dict) else v)
    def utf8(self, u): return u.encode('utf-8')
    def seq(self, name, mk, lo=0, hi=None):
        def draw():
            r = self.rng.random()
            if r < 0.2: m = lo
            elif r < 0.9: m = lo + self.rng.randint(0, 4)
            else: m = lo + self.rng.randint(0, 14)
            if hi is not None: m = min(m, hi)
            return m
        n = self._pick('#' + name, draw, lambda v: int(v) if v >= lo and (hi is None or v <= hi) else None)
        out = []
        s = self.idx
        for i in range(n):
            self.idx = s + (i,)
            try: out.append(mk(i))
            finally: self.idx = s
        return out
    list = seq
    def look(self, i): pass
    def given(self, c): self.assume(c)
    def index(self, name, n):
        if n <= 0: raise Skip()
        return self.int(name, 0, n - 1)

    def mapping(self, name, key, val, sized=True, objects=False):
        d = {}
        n = self._pick('#' + name, lambda: self.rng.choice([0, 1, 1, 2, 3, 5, 8]), int)
        s, self.idx = self.idx, None
        for i in range(n):
            self.idx = s + (i,)
            try:
                k = key(i)
                if k not in d: d[k] = val(k)
            finally: self.idx = s
        self.idx = s
        return d
    def haskey(self, d, k): return k in d
    def fold(self, init, step): return Fold(init, step)
    def contract(self, qual, f): pass
    def map_invariant(self, name, f): pass

    # values
    def imp(self, mod, *names):
        __import__(mod)
        v = sys.modules[mod]
        for n in names: v = getattr(v, n)
        return v
    def get(self, o, path):
        for p in path.split('.'): o = getattr(o, p)
        return o
    def has(self, o, name): return getattr(o, name, None) is not None
    def set(self, o, name, v): setattr(o, name, v)
    def patch(self, o, name, v):
        if isinstance(o, str): o = self.imp(o)
        old = getattr(o, name)
        self.undo.append(lambda: setattr(o, name, old))
        setattr(o, name, v)
    def arg(self, v): return v
    def call(self, f, *a, **k): return f(*a, **k)
    def do(self, o, name, *a, **k): return getattr(o, name)(*a, **k)
    def attempt(self, f, *a, **k):
        try:
            return Outcome(True, f(*a, **k))
        except (CheckFailed, Skip):
            raise
        except Exception, e:
            return Outcome(False, None, e, tuple([c.__name__ for c in type(e).__mro__] + (['OSError', 'IOError'] if isinstance(e, EnvironmentError) else [])))
        except Exception_:
            raise
    def tryto(self, o, name, *a, **k):
        try: f = getattr(o, name)
        except AttributeError, e: return Outcome(False, None, e, tuple([c.__name__ for c in type(e).__mro__]))
        return self.attempt(f, *a, **k)
    def len(self, v): return len(v)
    def item(self, v, k): return v[k]
    def dict(self, d=()): return dict(d)
    def pairs(self, ps):
        d = {}
        for k, v in ps: d[k] = v
        return d
    def lst(self, items=()): return list(items)
    def eq(self, a, b): return a == b
    def is_none(self, v): return v is None
    def same_obj(self, a, b): return a is b
    def isinst(self, v, cname): return cname in [c.__name__ for c in type(v).__mro__] or (isinstance(v, types.InstanceType) and v.__class__.__name__ == cname)
    def true(self, v): return bool(v)
    def ite(self, c, a, b): return a if c else b
    def all(self, *cs):
        for c in cs:
            if not c: return False
        return True
    def any(self, *cs):
        for c in cs:
            if c: return True
        return False
    def no(self, c): return not c
    def div(self, a, b): return a // b
    def mod(self, a, b): return a % b

    # bytes
    def byte(self, *vs): return ''.join([chr(v) for v in vs])
    def uint(self, v, n, big=False):
        s = ''.join([chr((v >> (8 * k)) & 255) for k in range(n)])
        return s[::-1] if big else s
    def sint(self, v, n, big=False): return self.uint(v if v >= 0 else v + 256 ** n, n, big)
    def fbits(self, x, n=4, big=False):
        return struct.pack(('>' if big else '<') + ('f' if n == 4 else 'd'), x)
    def fround(self, x, n=4):
        if n == 8: return float(x)
        return struct.unpack('<f', struct.pack('<f', x))[0]
    def toint(self, b, n, big=False, signed=False):
        if not big: b = b[:n][::-1]
        v = 0
        for c in b[:n]: v = v * 256 + ord(c)
        if signed and v >= 256 ** n // 2: v -= 256 ** n
        return v
    def tofloat(self, b, n=4, big=False):
        return struct.unpack(('>' if big else '<') + ('f' if n == 4 else 'd'), b[:n])[0]
    def cat(self, *vs): return ''.join(vs)
    def sub(self, v, a, b): return v[a:b]
    def at(self, v, i): return ord(v[i])
    def blen(self, v): return len(v)
    def zeros(self, n): return '\0' * n
    def upper(self, s): return s.upper()
    def tobytes(self, s): return str(s)

    # spec sequences
    def map(self, l, f): return [f(x) for x in l]
    def upto(self, n, f): return [f(i) for i in range(n)]
    def join(self, l, f): return ''.join([f(x) for x in l])
    def lcat(self, *ls):
        r = []
        for l in ls: r = r + list(l)
        return r
    def lslice(self, l, a, b): return list(l)[a:b]
    def items(self, l): return list(l)
    def nth(self, l, i): return l[i]
    def obj(self, cls=None, **f): return SpecObj(f, cls)
    def every(self, n, f):
        for i in range(n): f(i)

    # ghost state
    def log(self): return []
    def note(self, log, *x): log.append(tuple(x) if len(x) != 1 else x[0])
    def extend(self, log, seq): log.extend(seq)
    def cell(self, **attrs): return self.stub(**attrs)
    def fn(self, f, name='contract'): return f
    def stub(self, **attrs):
        s = Stub()
        for k, v in attrs.items(): setattr(s, k, v)
        return s
    def cb(self, name, f):
        k = self._pick(name, lambda: self.rng.randint(0, 3), lambda v: v['opaque'] if isinstance(v, dict) else v)
        return Callback(k, f)
    def _exc(self, clsname):
        import exceptions
        return getattr(exceptions, clsname)
    def throw(self, clsname, *args): raise self._exc(clsname)(*args)
    def new_exc(self, clsname, *args): return self._exc(clsname)(*args)
    def raise_(self, e): raise e

    # assumptions and checks
    def assume(self, c):
        if not c: raise Skip()
    def check(self, name, c, detail=''):
        self.nchecks += 1
        if not c: raise CheckFailed(self.prefix + name, detail)
        return True
    def same(self, name, a, b):
        self.nchecks += 1
        why = self.differ(a, b)
        if why: raise CheckFailed(self.prefix + name, why)
        return True
    def differ(self, a, b):
        if isinstance(b, SpecObj):
            if b.cls is not None and not self.isinst(a, b.cls): return '%s is not a %s' % (short(a), b.cls)
            for k, v in b.fields.items():
                if not hasattr(a, k): return '%s has no %s' % (short(a), k)
                w = self.differ(getattr(a, k), v)
                if w: return '%s: %s' % (k, w)
            return None
        if isinstance(a, bool) != isinstance(b, bool) and not (isinstance(a, (int, long)) and isinstance(b, (int, long))):
            return '%s is not %s' % (short(a), short(b))
        num = (int, long, float)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, float) or isinstance(b, float):
                if a != a and b != b: return None
                if a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b)): return None
                return '%r is not %r' % (a, b)
            return None if a == b else '%r is not %r' % (a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, tuple) != isinstance(b, tuple): return '%s is not %s' % (short(a), short(b))
            if len(a) != len(b): return 'length %d is not %d: %s / %s' % (len(a), len(b), short(a), short(b))
            for i in range(len(a)):
                w = self.differ(a[i], b[i])
                if w: return 'item %d: %s' % (i, w)
            return None
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b): return '%s is not %s' % (short(a), short(b))
            for k in b:
                if k not in a: return 'key %r is missing' % (k,)
                w = self.differ(a[k], b[k])
                if w: return 'key %r: %s' % (k, w)
            return None
        if a is b: return None
        if isinstance(a, (str, unicode)) != isinstance(b, (str, unicode)): return '%s is not %s' % (short(a), short(b))
        if a == b: return None
        return '%s is not %s' % (short(a), short(b))
    def is_dict(self, name, d, items):
        self.nchecks += 1
        if not isinstance(d, dict) or len(d) != len(items): raise CheckFailed(self.prefix + name, 'has %s, expected %s' % (short(d), short(items)))
        for k, v in items:
            if k not in d: raise CheckFailed(self.prefix + name, 'key %r is missing in %s' % (k, short(d)))
            self.same(name + ' (value)', d[k], v)
    def raises(self, name, r, exc):
        return self.check(name, (not r.ok) and exc in r.names, 'expected %s, got %r' % (exc, r))
    def cover(self, name): pass
    def snapshot(self, *os):
        seen = {}
        def rec(v):
            if id(v) in seen: return
            if isinstance(v, dict):
                seen[id(v)] = (v, dict(v))
                for x in v.values(): rec(x)
            elif isinstance(v, list):
                seen[id(v)] = (v, list(v))
                for x in v: rec(x)
            elif isinstance(v, tuple):
                for x in v: rec(x)
            elif hasattr(v, '__dict__') and not isinstance(v, (type, types.FunctionType, types.MethodType, types.ModuleType, types.ClassType, Callback, Opaque, Stub)):
                try: d = dict(v.__dict__)
                except TypeError: return
                seen[id(v)] = (v, d)
                for x in d.values(): rec(x)
        for o in os: rec(o)
        return seen
    def unchanged(self, name, snap):
        self.nchecks += 1
        for v, c in snap.values():
            d = v if isinstance(v, (dict, list)) else v.__dict__
            if len(d) != len(c): raise CheckFailed(self.prefix + name, '%s was %s' % (short(d), short(c)))
            if isinstance(v, list):
                for x, y in zip(d, c):
                    if x is not y and not (type(x) is type(y) and x == y): raise CheckFailed(self.prefix + name, '%s was %s' % (short(d), short(c)))
            else:
                for k in c:
                    if k not in d: raise CheckFailed(self.prefix + name, '%r is gone' % (k,))
                    x, y = d[k], c[k]
                    if x is not y and not (type(x) is type(y) and x == y): raise CheckFailed(self.prefix + name, '%s: %s was %s' % (k, short(x), short(y)))
Exception_ = Exception
