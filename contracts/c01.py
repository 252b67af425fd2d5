from vc import unit
import xfield as F

P = F.M + 'data_packer.DataPacker.'
U = F.M + 'data_unpacker.DataUnpacker.'
NAMES = [t for t in F.ORDER if t in F.TYPES]
ENDIAN = {'default': None, 'little': b'<', 'big': b'>', 'network': b'!', 'none': b''}

def packer(W): return W.call(W.imp(F.M + 'data_packer', 'DataPacker'))
def unpacker(W): return W.call(W.imp(F.M + 'data_unpacker', 'DataUnpacker'))

def order(W, t, name):
    """a byte order as the caller may give it: (arguments, big endian or None)"""
    if F.TYPES[t][0] not in 'usf': return {}, None
    o = W.choice(name, ['default', 'little', 'big', 'network', 'none'])
    if o == 'default': return {}, None
    return {'endian_type': ENDIAN[o]}, {'little': False, 'big': True, 'network': True, 'none': None}[o]

def earlier(W, p, u):
    """anything that was packed and unpacked before"""
    t = W.choice('earlier type', ['none', 'MVT_U16', 'MVT_IP_PORT', 'MVT_LLQuaternion', 'MVT_LLUUID'])
    if t == 'none': return
    v, c = F.value(W, t, 'earlier')
    kw, big = order(W, t, 'earlier byte order')
    b = W.do(p, 'pack_data', v, F.code(W, t), **kw)
    W.do(u, 'unpack_data', b, F.code(W, t), 0, **kw)

def packs(W, t):
    p = packer(W)
    earlier(W, p, unpacker(W))
    v, c = F.value(W, t, 'value')
    kw, big = order(W, t, 'byte order')
    W.same('wire bytes', W.do(p, 'pack_data', v, F.code(W, t), **kw), F.wire(W, t, c, big))
    # again, without a byte order
    W.same('wire bytes again', W.do(p, 'pack_data', v, F.code(W, t)), F.wire(W, t, c))

def unpacks(W, t):
    u = unpacker(W)
    earlier(W, packer(W), u)
    n = F.width(t)
    pre = W.bytes('before'); raw = W.bytes('field', n=n); post = W.bytes('after')
    buf = W.cat(pre, raw, post)
    kw, big = order(W, t, 'byte order')
    how = W.choice('how', ['offset', 'offset and size', 'alone'])
    if how == 'offset': got = W.do(u, 'unpack_data', buf, F.code(W, t), W.blen(pre), **kw)
    elif how == 'offset and size': got = W.do(u, 'unpack_data', buf, F.code(W, t), W.blen(pre), var_size=n, **kw)
    else: got = W.do(u, 'unpack_data', raw, F.code(W, t), **kw)
    F.check(W, 'value', t, got, F.read(W, t, raw, big))
    F.check(W, 'value again', t, W.do(u, 'unpack_data', buf, F.code(W, t), W.blen(pre)), F.read(W, t, raw))

def travels(W, t):
    p, u = packer(W), unpacker(W)
    v, c = F.value(W, t, 'value')
    kw, big = order(W, t, 'byte order')
    b = W.do(p, 'pack_data', v, F.code(W, t), **kw)
    W.check('width', W.eq(W.blen(b), F.width(t)))
    pre = W.bytes('before'); post = W.bytes('after')
    got = W.do(u, 'unpack_data', W.cat(pre, b, post), F.code(W, t), W.blen(pre), **kw)
    F.check(W, 'value', t, got, F.rounded(W, t, c))

def short(W, t):
    u = unpacker(W)
    n = F.width(t)
    pre = W.bytes('before'); raw = W.bytes('short', lo=0, hi=n - 1)
    how = W.choice('how', ['offset', 'alone', 'beyond the end'])
    if how == 'offset': r = W.tryto(u, 'unpack_data', W.cat(pre, raw), F.code(W, t), W.blen(pre))
    elif how == 'alone': r = W.tryto(u, 'unpack_data', raw, F.code(W, t))
    else: r = W.tryto(u, 'unpack_data', raw, F.code(W, t), W.blen(raw) + W.int('gap', 0, 10))
    W.raises('too short', r, 'DataUnpackingError')
    # and the next value is read as if nothing had happened
    good = W.bytes('field', n=n)
    F.check(W, 'value after it', t, W.do(u, 'unpack_data', good, F.code(W, t), 0), F.read(W, t, good))

for _t in NAMES:
    def _mk(t):
        k = F.TYPES[t][0]
        q = ['_DataPacker__pack_quat'] if k == 'q' else ['_DataPacker__pack_tuple'] if k == 'v' else ['_DataPacker__pack_uuid'] if k == 'i' else []
        fp = [P + 'pack_data'] + [P + x.replace('_DataPacker', '') for x in q]
        fu = [U + 'unpack_data'] + [U + x for x in {'v': ['__unpack_vector3'], 'q': ['__unpack_quat'], 'i': ['__unpack_uuid']}.get(k, [])]
        unit('C01', 'Packing a ' + t[4:], funs=fp, runs=40)(lambda W: packs(W, t))
        unit('C01', 'Unpacking a ' + t[4:], funs=fu, runs=40)(lambda W: unpacks(W, t))
        unit('C01', 'A %s survives packing and unpacking' % t[4:], funs=fp + fu, runs=40)(lambda W: travels(W, t))
        unit('C01', 'A %s that is too short' % t[4:], funs=fu, runs=40)(lambda W: short(W, t))
    _mk(_t)

@unit('C01', 'Unknown types', funs=[P + 'pack_data', U + 'unpack_data'])
def unknown(W):
    t = W.int('type')
    W.assume(W.any(t < 0, t > 19))
    data = W.bytes('data')
    W.check('packing gives None', W.is_none(W.do(packer(W), 'pack_data', data, t)))
    W.check('unpacking gives None', W.is_none(W.do(unpacker(W), 'unpack_data', data, t)))

@unit('C01', 'Two packers share nothing that changes', funs=[P + '__init__', U + '__init__'], runs=20)
def independent(W):
    p, q = packer(W), packer(W)
    W.do(W.get(p, 'packer'), 'clear')
    u, v = unpacker(W), unpacker(W)
    W.do(W.get(u, 'unpacker'), 'clear')
    n = W.int('n', 0, 2 ** 32 - 1)
    b = W.do(q, 'pack_data', n, F.code(W, 'MVT_U32'))
    W.same('packed', b, W.uint(n, 4))
    W.same('unpacked', W.do(v, 'unpack_data', b, F.code(W, 'MVT_U32'), 0), n)

@unit('C01', 'Quaternions that are nearly a rotation by W = 0', mode='conc', runs=600, bounded='drawn rotations')
def quaternion_near(W):
    c = [W.real('c%d' % i, -1.0, 1.0) for i in range(3)]
    n = sum(x * x for x in c) ** 0.5
    W.assume(n > 1e-3)
    k = 1 - 10.0 ** -W.int('distance', 1, 8)
    c = [x / n * k for x in c]
    w = (1 - sum(x * x for x in c)) ** 0.5
    sign = W.choice('sign', [1, -1])
    code = F.code(W, 'MVT_LLQuaternion')
    raw = packer(W).pack_data((c[0], c[1], c[2], sign * w), code)
    import struct
    got = struct.unpack('<3f', raw)
    W.check('the components of the form with W not negative', got == struct.unpack('<3f', struct.pack('<3f', *[sign * x for x in c])), repr(got))
    q = unpacker(W).unpack_data('abc' + raw, code, 3)
    t = 1 - sum(x * x for x in got)
    W.check('W is rebuilt', q.W >= 0 and abs(q.W * q.W - max(t, 0)) <= 1e-12, repr((q.W, t)))
