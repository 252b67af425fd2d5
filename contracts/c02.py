from vc import unit
import xfield as F
from c01 import packer, unpacker, P, U

@unit('C02', 'Fixed-width and IP address fields are packed as they are', funs=[P + 'pack_data', P + '__pack_fixed'])
def fixed(W):
    t = F.code(W, W.choice('type', ['MVT_FIXED', 'MVT_IP_ADDR']))
    data = W.bytes('data')
    p = packer(W)
    W.do(p, 'pack_data', W.bytes('earlier'), F.code(W, W.choice('earlier type', ['MVT_FIXED', 'MVT_VARIABLE', 'MVT_IP_ADDR'])))
    W.same('bytes', W.do(p, 'pack_data', data, t), data)

@unit('C02', 'Variable fields are packed as their bytes and one NUL', funs=[P + 'pack_data', P + '__pack_string'])
def variable(W):
    t = F.code(W, 'MVT_VARIABLE')
    p = packer(W)
    W.do(p, 'pack_data', W.bytes('earlier'), F.code(W, W.choice('earlier type', ['MVT_FIXED', 'MVT_VARIABLE', 'MVT_IP_ADDR'])))
    kind = W.choice('kind', ['bytes', 'text', 'none', 'empty', 'empty text'])
    if kind == 'bytes': v = W.bytes('data'); want = v
    elif kind == 'text': v = W.uni('text'); want = W.utf8(v)
    elif kind == 'none': v = None; want = b''
    elif kind == 'empty': v = b''; want = b''
    else: v = b''.decode('ascii'); want = b''
    W.same('bytes', W.do(p, 'pack_data', v, t), W.cat(want, b'\0'))

@unit('C02', 'Reading fixed, variable and address fields gives exactly their bytes', funs=[U + 'unpack_data', U + '__unpack_fixed', U + '__unpack_string'])
def reads(W):
    name = W.choice('type', ['MVT_FIXED', 'MVT_VARIABLE', 'MVT_IP_ADDR'])
    t = F.code(W, name)
    pre = W.bytes('before'); post = W.bytes('after')
    data = W.bytes('data', n=4) if name == 'MVT_IP_ADDR' else W.bytes('data')
    u = unpacker(W)
    W.do(u, 'unpack_data', W.bytes('earlier'), F.code(W, 'MVT_VARIABLE'), 0, var_size=W.int('earlier size', 0, 1000))
    buf = W.cat(pre, data, post)
    how = W.choice('how', ['size', 'alone'] + (['no size'] if name == 'MVT_IP_ADDR' else []))
    if how == 'size': got = W.do(u, 'unpack_data', buf, t, W.blen(pre), W.blen(data))
    elif how == 'no size': got = W.do(u, 'unpack_data', buf, t, W.blen(pre))
    else: got = W.do(u, 'unpack_data', data, t)
    W.same('bytes', got, data)

@unit('C02', 'What is packed is read back', funs=[P + 'pack_data', U + 'unpack_data'])
def travels(W):
    name = W.choice('type', ['MVT_FIXED', 'MVT_VARIABLE', 'MVT_IP_ADDR'])
    t = F.code(W, name)
    data = W.bytes('data', n=4) if name == 'MVT_IP_ADDR' else W.bytes('data')
    b = W.do(packer(W), 'pack_data', data, t)
    pre = W.bytes('before'); post = W.bytes('after')
    got = W.do(unpacker(W), 'unpack_data', W.cat(pre, b, post), t, W.blen(pre), var_size=W.blen(b))
    W.same('bytes', got, W.cat(data, b'\0') if name == 'MVT_VARIABLE' else data)
