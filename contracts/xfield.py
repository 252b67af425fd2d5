# the wire form of every field type
M = 'pyogp.lib.base.message.'
DT = 'pyogp.lib.base.datatypes'
# type: (kind, bytes, big endian by default)
TYPES = {
    'MVT_U8': ('u', 1, True), 'MVT_S8': ('s', 1, True), 'MVT_BOOL': ('b', 1, True),
    'MVT_U16': ('u', 2, False), 'MVT_S16': ('s', 2, False), 'MVT_IP_PORT': ('u', 2, True),
    'MVT_U32': ('u', 4, False), 'MVT_S32': ('s', 4, False), 'MVT_U64': ('u', 8, False), 'MVT_S64': ('s', 8, False),
    'MVT_F32': ('f', 4, False), 'MVT_F64': ('f', 8, False),
    'MVT_LLVector3': ('v', 4, False), 'MVT_LLVector3d': ('v', 8, False), 'MVT_LLVector4': ('v', 4, False),
    'MVT_LLQuaternion': ('q', 4, False), 'MVT_LLUUID': ('i', 16, True),
}
NUMBERS = ['MVT_U8', 'MVT_S8', 'MVT_BOOL', 'MVT_U16', 'MVT_S16', 'MVT_IP_PORT', 'MVT_U32', 'MVT_S32', 'MVT_U64', 'MVT_S64', 'MVT_F32', 'MVT_F64']
COMPONENTS = {'MVT_LLVector3': 3, 'MVT_LLVector3d': 3, 'MVT_LLVector4': 4, 'MVT_LLQuaternion': 3}
ORDER = ['MVT_FIXED', 'MVT_VARIABLE', 'MVT_U8', 'MVT_U16', 'MVT_U32', 'MVT_U64', 'MVT_S8', 'MVT_S16', 'MVT_S32', 'MVT_S64', 'MVT_F32', 'MVT_F64',
         'MVT_LLVector3', 'MVT_LLVector3d', 'MVT_LLVector4', 'MVT_LLQuaternion', 'MVT_LLUUID', 'MVT_BOOL', 'MVT_IP_ADDR', 'MVT_IP_PORT']

def width(t):
    kind, n, big = TYPES[t]
    return n * COMPONENTS.get(t, 1)

def code(W, t):
    """the number of a type"""
    return W.imp(M + 'msgtypes', 'MsgType', t)

def value(W, t, name):
    """a value in range of a field: (what is given, its components)"""
    kind, n, big = TYPES[t]
    if kind == 'u': v = W.int(name, 0, 256 ** n - 1); return v, v
    if kind == 's': v = W.int(name, -(256 ** n) // 2, 256 ** n // 2 - 1); return v, v
    if kind == 'b': v = W.bool(name); return v, v
    if kind == 'f':
        v = W.real(name) if n == 8 else W.f32(name) if W.bool(name + ' is a wire float') else W.real(name)
        if n == 4 and not W.sym: W.assume(v is not None and abs(v) < 3e38)
        return v, v
    if kind == 'v' or kind == 'q':
        k = COMPONENTS[t] + (1 if kind == 'q' else 0)
        vs = tuple(W.real('%s.%d' % (name, i)) for i in range(k))
        if not W.sym and n == 4:
            for v in vs: W.assume(abs(v) < 3e38)
        cls = {'MVT_LLVector3': 'Vector3', 'MVT_LLQuaternion': 'Quaternion'}.get(t)
        if cls and W.bool(name + ' is an object'):
            kw = dict(zip('XYZW', vs))
            return W.call(W.imp(DT, cls), **kw), vs
        if W.choice(name + ' is', ['tuple', 'list']) == 'list' and cls is None:
            return W.lst(list(vs)), vs
        return W.arg(vs), vs
    if kind == 'i':
        raw = W.bytes(name, n=16)
        if W.bool(name + ' is a uuid.UUID'): return W.call(W.imp('uuid', 'UUID'), bytes=raw), raw
        return W.call(W.imp(DT, 'UUID'), bytes=raw), raw
    raise ValueError(t)

def sent(W, t, vs):
    """the components that go over the wire"""
    if TYPES[t][0] != 'q': return vs
    if vs[3] >= 0: return vs[:3]
    return (-vs[0], -vs[1], -vs[2])

def wire(W, t, vs, big=None):
    """the bytes of a value"""
    kind, n, dflt = TYPES[t]
    if big is None: big = dflt
    if kind == 'u': return W.uint(vs, n, big)
    if kind == 's': return W.sint(vs, n, big)
    if kind == 'b': return W.byte(W.ite(vs, 1, 0))
    if kind == 'f': return W.fbits(vs, n, big)
    if kind in 'vq': return W.cat(*[W.fbits(v, n, big) for v in sent(W, t, vs)])
    return vs

def read(W, t, b, big=None):
    """the components that the bytes of a field say"""
    kind, n, dflt = TYPES[t]
    if big is None: big = dflt
    if kind == 'u' or kind == 'b': return W.toint(b, n, big)
    if kind == 's': return W.toint(b, n, big, signed=True)
    if kind == 'f': return W.tofloat(b, n, big)
    if kind in 'vq': return tuple(W.tofloat(W.sub(b, n * k, n * k + n), n, big) for k in range(COMPONENTS[t]))
    return b

def near(W, a, b):
    if W.sym: return W.eq(a, b)
    return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)

def check(W, name, t, got, want):
    """a field decoded to these components"""
    kind, n, dflt = TYPES[t]
    if t == 'MVT_LLVector3' or t == 'MVT_LLQuaternion':
        cls = 'Vector3' if kind == 'v' else 'Quaternion'
        W.check(name + ' is a ' + cls, W.isinst(got, cls))
        W.same(name, tuple(W.get(got, c) for c in 'XYZ'), want)
        if kind == 'q': check_w(W, name, W.get(got, 'W'), want)
    elif kind == 'i':
        W.check(name + ' is a UUID', W.isinst(got, 'UUID'))
        W.same(name, W.do(got, 'get_bytes'), want)
    else:
        W.same(name, got, want)

def check_w(W, name, w, c):
    if not W.sym and not all(abs(x) < 1e18 for x in c): return
    t = 1.0 - (c[0] * c[0] + c[1] * c[1] + c[2] * c[2])
    W.check(name + ': W is not negative', w >= 0)
    if t > 0: W.check(name + ': a unit rotation', near(W, w * w, t))
    else: W.check(name + ': no W makes it a unit rotation', W.eq(w, 0))

def rounded(W, t, vs):
    """what a receiver gets"""
    kind, n, dflt = TYPES[t]
    if kind == 'f': return W.fround(vs, n)
    if kind in 'vq': return tuple(W.fround(v, n) for v in sent(W, t, vs))
    if kind == 'b': return W.ite(vs, 1, 0)
    return vs
