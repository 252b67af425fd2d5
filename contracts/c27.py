from vc import unit

M = 'pyogp.lib.base.datatypes'
V = M + '.Vector3.'
Q = M + '.Quaternion.'
U = M + '.UUID.'
NIL = b'00000000-0000-0000-0000-000000000000'

def fields(cls): return ['X', 'Y', 'Z'] if cls == 'Vector3' else ['X', 'Y', 'Z', 'W']

def comps(W, o, cls): return tuple(W.get(o, f) for f in fields(cls))

def views(W, name, o, cls, want):
    """every way of reading a vector gives these components"""
    W.same(name + ': components', comps(W, o, cls), tuple(want))
    W.same(name + ': data', W.do(o, 'data'), tuple(want))
    W.same(name + ': called', W.call(o), tuple(want))

def number(W, name):
    """a number as a caller may give it: float or integer"""
    if W.bool(name + ' is an integer'):
        return W.int(name + ' integer', -2 ** 31, 2 ** 31)
    return W.real(name)

def build(W, cls, want, how='keywords'):
    C = W.imp(M, cls)
    kw = {}
    for f, v in zip(fields(cls), want): kw[f] = v
    return W.call(C, **kw)

@unit('C27', 'Vectors made from components', funs=[V + '__init__', V + 'data', V + '__call__', V + 'copy', V + 'get_bytes', V + 'unpack_from_bytes'])
def vector(W):
    components(W, 'Vector3')

@unit('C27', 'Quaternions made from components', funs=[Q + '__init__', Q + 'data', Q + '__call__', Q + 'copy', Q + 'get_bytes', Q + 'unpack_from_bytes'])
def quaternion(W):
    components(W, 'Quaternion')

def components(W, cls):
    names = fields(cls)
    given = W.choice('given', ['all'] + ['but ' + f for f in names] + ['none'])
    kw, want = {}, []
    for f in names:
        if given == 'none' or given == 'but ' + f: want.append(0.0); continue
        v = number(W, f)
        kw[f] = v
        want.append(v)
    o = W.call(W.imp(M, cls), **kw)
    views(W, 'vector', o, cls, want)
    # every read again gives the same
    c = W.do(o, 'copy')
    W.check('the copy is another object', W.no(W.same_obj(c, o)))
    W.check('of the same class', W.isinst(c, cls))
    views(W, 'copy', c, cls, want)
    b = W.do(o, 'get_bytes')
    W.same('bytes', b, W.cat(*[W.fbits(v) for v in want]))
    # the copy is independent, and so are later vectors
    for f in names: W.set(c, f, W.real('changed ' + f))
    views(W, 'vector after its copy was changed', o, cls, want)
    other = W.call(W.imp(M, cls))
    views(W, 'a later vector without components', other, cls, [0.0] * len(names))
    W.set(o, names[0], 7.5)
    views(W, 'vector with a changed component', o, cls, [7.5] + want[1:])
    views(W, 'its copy then', W.do(o, 'copy'), cls, [7.5] + want[1:])
    W.same('its bytes then', W.do(o, 'get_bytes'), W.cat(*[W.fbits(v) for v in [7.5] + want[1:]]))

@unit('C27', 'Vectors read from bytes', funs=[V + '__init__', V + 'unpack_from_bytes', V + 'get_bytes'])
def vector_bytes(W):
    pre = W.bytes('before'); raw = W.bytes('vector', n=12); post = W.bytes('after')
    buf = W.cat(pre, raw, post)
    C = W.imp(M, 'Vector3')
    want = [W.tofloat(W.sub(raw, 4 * k, 4 * k + 4)) for k in range(3)]
    how = W.choice('how', ['constructor', 'positional', 'unpack_from_bytes'])
    if how == 'constructor': o = W.call(C, bytes=buf, offset=W.blen(pre))
    elif how == 'positional': o = W.call(C, buf, W.blen(pre))
    else:
        o = W.call(C, X=1.0, Y=2.0, Z=3.0)
        W.do(o, 'unpack_from_bytes', buf, W.blen(pre))
    views(W, 'vector', o, 'Vector3', want)
    W.same('and back', W.do(o, 'get_bytes'), W.cat(*[W.fbits(v) for v in want]))
    o2 = W.call(C, bytes=raw)
    views(W, 'without an offset', o2, 'Vector3', want)
    short = W.bytes('short', lo=0, hi=11)
    r = W.attempt(C, bytes=short)
    W.check('too few bytes are an error', W.no(r.ok))

@unit('C27', 'Quaternions read from bytes', funs=[Q + '__init__', Q + 'unpack_from_bytes', Q + 'get_bytes'])
def quaternion_bytes(W):
    pre = W.bytes('before'); raw = W.bytes('quaternion', n=16); post = W.bytes('after')
    buf = W.cat(pre, raw, post)
    C = W.imp(M, 'Quaternion')
    want = [W.tofloat(W.sub(raw, 4 * k, 4 * k + 4)) for k in range(4)]
    how = W.choice('how', ['constructor', 'positional', 'unpack_from_bytes'])
    if how == 'constructor': o = W.call(C, bytes=buf, offset=W.blen(pre))
    elif how == 'positional': o = W.call(C, buf, W.blen(pre))
    else:
        o = W.call(C, X=1.0, Y=2.0, Z=3.0, W=4.0)
        W.do(o, 'unpack_from_bytes', buf, W.blen(pre))
    views(W, 'quaternion', o, 'Quaternion', want)
    W.same('and back', W.do(o, 'get_bytes'), W.cat(*[W.fbits(v) for v in want]))
    views(W, 'without an offset', W.call(C, bytes=raw), 'Quaternion', want)

@unit('C27', 'Quaternions read from twelve bytes get the W of a unit rotation', funs=[Q + '__init__', Q + 'unpack_from_bytes'])
def quaternion_short(W):
    pre = W.bytes('before'); raw = W.bytes('quaternion', n=12); rest = W.bytes('rest', lo=0, hi=3)
    C = W.imp(M, 'Quaternion')
    x, y, z = [W.tofloat(W.sub(raw, 4 * k, 4 * k + 4)) for k in range(3)]
    if not W.sym:
        W.assume(x == x and y == y and z == z and abs(x) < 1e18 and abs(y) < 1e18 and abs(z) < 1e18)
    o = W.call(C, bytes=W.cat(pre, raw, rest), offset=W.blen(pre))
    w = W.get(o, 'W')
    W.same('the components sent', tuple(W.get(o, f) for f in 'XYZ'), (x, y, z))
    t = 1.0 - (x * x + y * y + z * z)
    W.check('W is not negative', w >= 0)
    if t > 0: W.check('X, Y, Z, W is a unit rotation', near(W, w * w, t))
    else: W.check('no W makes it a unit rotation', W.eq(w, 0))

@unit('C27', 'Quaternions that are nearly a rotation by W = 0', mode='conc', runs=600, bounded='drawn rotations')
def quaternion_near(W):
    import struct
    c = [W.real('c%d' % i, -1.0, 1.0) for i in range(3)]
    n = sum(x * x for x in c) ** 0.5
    W.assume(n > 1e-3)
    k = 1 - W.choice('side', [1, 1, -1]) * 10.0 ** -W.int('distance', 1, 8)
    raw = struct.pack('<3f', *[x / n * k for x in c])
    x, y, z = struct.unpack('<3f', raw)
    t = 1.0 - (x * x + y * y + z * z)
    o = W.imp(M, 'Quaternion')(bytes='ab' + raw, offset=2) if W.bool('at an offset') else W.imp(M, 'Quaternion')(raw)
    W.check('W is not negative', o.W >= 0)
    W.check('X, Y, Z, W is a unit rotation if there is one', abs(o.W * o.W - max(t, 0)) <= 1e-12, repr((t, o.W)))

def near(W, a, b):
    if W.sym: return W.eq(a, b)
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)

@unit('C27', 'Quaternions of unit length survive the twelve byte form', mode='conc', runs=300)
def unit_quaternion(W):
    import math
    v = [W.real('c%d' % k, -1, 1) for k in range(4)]
    n = math.sqrt(sum([x * x for x in v]))
    W.assume(n > 0.01)
    v = [x / n for x in v]
    if v[3] < 0: v = [-x for x in v]
    C = W.imp(M, 'Quaternion')
    q = W.call(C, X=v[0], Y=v[1], Z=v[2], W=v[3])
    r = W.call(C, bytes=W.do(q, 'get_bytes')[:12])
    for a, b in zip(comps(W, r, 'Quaternion')[:3], v[:3]): W.check('component', abs(a - b) < 1e-6)
    W.check('W', abs(W.get(r, 'W') ** 2 - v[3] ** 2) < 1e-5)

@unit('C27', 'Squared distance', funs=[V + 'dist_squared'])
def distance(W):
    a = [number(W, 'a' + f) for f in 'XYZ']; b = [number(W, 'b' + f) for f in 'XYZ']
    if not W.sym: a = [float(x) for x in a]; b = [float(x) for x in b]
    A = build(W, 'Vector3', a); Bv = build(W, 'Vector3', b)
    how = W.choice('how', ['class', 'object'])
    snap = W.snapshot(A, Bv)
    d = W.do(W.imp(M, 'Vector3') if how == 'class' else A, 'dist_squared', A, Bv)
    want = 0
    for x, y in zip(a, b): want = want + (x - y) * (x - y)
    W.same('distance', d, want)
    W.unchanged('the vectors', snap)

WORDS = [b'1', b'-2.5', b'1e3', b'', b'x', b'0x10', b'1 2']

def parse_check(W, pieces, deco, pad):
    text = b','.join([pad + p + pad for p in pieces])
    if deco: text = b'<' + text + b'>'
    r = W.attempt(W.get(W.imp(M, 'Vector3'), 'parse'), text)
    vals = []
    for p in pieces:
        try: vals.append(float(p.decode('ascii')))
        except ValueError: vals.append(None)
    if len(pieces) == 3 and None not in vals:
        W.check('three numbers are a vector', r.ok)
        W.check('a vector', W.isinst(r.value, 'Vector3'))
        views(W, 'vector', r.value, 'Vector3', vals)
    else:
        W.raises('otherwise', r, 'ValueError')

@unit('C27', 'Parsing a vector text', funs=[V + 'parse'], bounded='texts of 0 to 5 pieces from 7 words, with or without brackets and spaces', runs=300)
def parse(W):
    n = W.choice('pieces', [3, 1, 2, 4, 5])
    if n == 3:
        pieces = [W.choice('piece%d' % k, WORDS) for k in range(n)]
    else:
        w = W.choice('piece', WORDS)
        pieces = [w] * n
    parse_check(W, pieces, W.bool('brackets'), W.choice('padding', [b'', b' ']))

@unit('C27', 'A vector text survives', mode='conc', runs=200)
def parse_repr(W):
    v = [W.real('c%d' % k) for k in range(3)]
    C = W.imp(M, 'Vector3')
    o = W.call(C, X=v[0], Y=v[1], Z=v[2])
    text = W.choice('form', ['<%r, %r, %r>', '%r,%r,%r', '< %r , %r, %r >', ' <%r,%r,%r> ']) % tuple(v)
    views(W, 'vector', W.do(C, 'parse', text), 'Vector3', v)

@unit('C27', 'Texts that may be vectors', mode='conc', runs=1500, bounded='drawn texts')
def parse_drawn(W):
    pieces = [W.choice('piece%d' % k, WORDS + ['', ' ', '<1', '2>', '7', 'nan x', '1.', '.5', '+3', '1e', '--1', '1,']) if W.bool('odd%d' % k) else '%d' % k for k in range(W.int('pieces', 0, 6))]
    text = ','.join(pieces) + W.choice('end', ['', '', ',', ', ', ',,', '>', ';'])
    got = text.replace('<', '').replace('>', '').split(',')
    vals = []
    for p in got:
        try: vals.append(float(p))
        except ValueError: vals.append(None)
    r = W.attempt(W.imp(M, 'Vector3').parse, text)
    if len(got) == 3 and None not in vals:
        W.check('three numbers are a vector', r.ok, text)
        views(W, 'vector', r.value, 'Vector3', vals)
    else: W.raises('otherwise', r, 'ValueError')

# UUIDs

def uuid_of(W, raw, name='how'):
    C = W.imp(M, 'UUID')
    how = W.choice(name, ['bytes', 'offset', 'unpack', 'text'])
    if how == 'bytes': return W.call(C, bytes=raw)
    if how == 'offset':
        pre = W.bytes(name + ' before'); post = W.bytes(name + ' after')
        return W.call(C, bytes=W.cat(pre, raw, post), offset=W.blen(pre))
    if how == 'unpack':
        o = W.call(C, b'11111111-2222-3333-4444-555555555555')
        W.do(o, 'unpack_from_bytes', raw, 0)
        return o
    return W.call(C, text_of(W, raw))

def text_of(W, raw):
    """the canonical text of 16 bytes"""
    u = W.call(W.imp('uuid', 'UUID'), bytes=raw)
    return W.call(W.get(u, '__str__'))

def holds(W, name, o, raw):
    W.same(name + ': bytes', W.do(o, 'get_bytes'), raw)
    n = W.toint(raw, 16, big=True)
    for how, u in (('data', W.do(o, 'data')), ('called', W.call(o)), ('uuid', W.get(o, 'uuid'))):
        W.check('%s: %s' % (name, how), W.eq(W.get(u, 'int'), n))

@unit('C27', 'UUIDs hold the value they were made from', funs=[U + '__init__', U + 'unpack_from_bytes', U + 'get_bytes', U + 'data', U + '__call__', U + 'copy', U + '__repr__'])
def uuids(W):
    raw = W.bytes('raw', n=16)
    o = uuid_of(W, raw)
    holds(W, 'uuid', o, raw)
    c = W.do(o, 'copy')
    W.check('the copy is another object', W.no(W.same_obj(c, o)))
    W.check('of the same class', W.isinst(c, 'UUID'))
    holds(W, 'copy', c, raw)
    W.check('the copy is equal', W.eq(c, o))
    W.check('its text', W.eq(W.do(o, '__repr__'), text_of(W, raw)))
    W.do(c, 'unpack_from_bytes', W.bytes('other', n=16), 0)
    holds(W, 'uuid after its copy was changed', o, raw)
    holds(W, 'a later default uuid', W.call(W.imp(M, 'UUID')), W.zeros(16))
    W.do(o, 'unpack_from_bytes', W.bytes('third', n=16), 0)
    holds(W, 'changed uuid', o, W.bytes('third', n=16))
    holds(W, 'copy of the changed uuid', W.do(o, 'copy'), W.bytes('third', n=16))

@unit('C27', 'UUIDs are not made from fewer than 16 bytes or other text', funs=[U + '__init__', U + 'unpack_from_bytes'])
def bad_uuids(W):
    C = W.imp(M, 'UUID')
    if W.bool('from text'):
        t = W.choice('text', [b'', b'x', b'00000000-0000-0000-0000-00000000000', b'0000000g-0000-0000-0000-000000000000'])
        r = W.attempt(C, t)
    else:
        r = W.attempt(C, bytes=W.bytes('short', lo=0, hi=15))
    W.raises('error', r, 'ValueError')

@unit('C27', 'UUID equality and inequality compare values', funs=[U + '__eq__', U + '__ne__'])
def equality(W):
    a = W.bytes('a', n=16); b = W.bytes('b', n=16)
    C = W.imp(M, 'UUID')
    A = uuid_of(W, a, 'first'); Bv = W.call(C, bytes=b)
    same = W.eq(a, b)
    if W.sym:
        x = W.do(A, '__eq__', Bv); y = W.do(A, '__ne__', Bv)
    else:
        x = A == Bv; y = A != Bv
    W.check('equal iff the values are', W.eq(W.true(x), same))
    W.check('unequal iff the values differ', W.eq(W.true(y), W.no(same)))
    W.check('equal to itself', W.eq(A, W.call(C, bytes=a)))
    other = W.choice('other', [None, 5, b'text', ()])
    W.check('nothing else is equal', W.no(W.true(W.do(A, '__eq__', other))))
    W.check('everything else is unequal', W.true(W.do(A, '__ne__', other)))

@unit('C27', 'The xor of two UUIDs is bitwise', funs=[U + '__xor__'])
def xor(W):
    a = W.bytes('a', n=16); b = W.bytes('b', n=16)
    C = W.imp(M, 'UUID')
    A = W.call(C, bytes=a); Bv = W.call(C, bytes=b)
    r = W.do(A, '__xor__', Bv)
    W.check('a UUID', W.isinst(r, 'UUID'))
    n = W.toint(a, 16, big=True) ^ W.toint(b, 16, big=True)
    W.check('value', W.eq(W.get(W.get(r, 'uuid'), 'int'), n))
    holds(W, 'first', A, a); holds(W, 'second', Bv, b)
    W.check('another object', W.no(W.any(W.same_obj(r, A), W.same_obj(r, Bv))))

@unit('C27', 'A random UUID replaces only the nil UUID', funs=[U + 'random'])
def rnd(W):
    C = W.imp(M, 'UUID')
    raw = W.zeros(16) if W.bool('nil') else W.bytes('raw', n=16)
    o = W.call(C, bytes=raw)
    r = W.do(o, 'random')
    if W.eq(W.toint(raw, 16, big=True), 0):
        W.check('gives the new value', W.eq(W.get(r, 'int'), W.get(W.get(o, 'uuid'), 'int')))
        W.check('not nil any more', W.no(W.eq(W.get(W.get(o, 'uuid'), 'int'), 0)))
        b = W.do(o, 'get_bytes')
        W.do(o, 'random')
        W.same('kept when asked again', W.do(o, 'get_bytes'), b)
        o2 = W.call(C)
        W.do(o2, 'random')
        if not W.sym: W.check('another random value', W.no(W.eq(W.do(o2, 'get_bytes'), b)))
    else:
        W.check('gives nothing', W.is_none(r))
        holds(W, 'the value stays', o, raw)
    holds(W, 'a new one is nil', W.call(C), W.zeros(16))
