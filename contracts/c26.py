from vc import unit

M = 'pyogp.lib.base.helpers'
H = M + '.Helpers.'

def fn(W, name): return W.get(W.imp(M, 'Helpers'), name)

def unpacked(W, width, buf, off, lo, hi):
    how = W.choice('called on', ['class', 'object'])
    o = W.imp(M, 'Helpers')
    if how == 'object': o = W.call(o)
    return W.tryto(o, 'packed_u%d_to_float' % width, buf, off, lo, hi)

def close(W, a, b, scale):
    if W.sym: return W.eq(a, b)
    return abs(a - b) <= 1e-9 * scale

def point(W, width):
    n = width // 8
    top = 2 ** width - 1
    pre = W.bytes('before'); raw = W.bytes('packed', n=n); post = W.bytes('after')
    lo = W.real('lower'); hi = W.real('upper')
    if W.bool('integer bounds'): lo = W.int('lower int', -2 ** 31, 2 ** 31); hi = W.int('upper int', -2 ** 31, 2 ** 31)
    W.assume(lo < hi)
    k = W.toint(raw, n)
    r = unpacked(W, width, W.cat(pre, raw, post), W.blen(pre), lo, hi)
    W.check('unpacks', r.ok)
    v = r.value
    step = (hi - lo) * 1.0 / top
    p = lo + k * 1.0 * (hi - lo) / top
    if not W.sym:
        scale = max(abs(lo), abs(hi))
        W.assume(abs(abs(p) - step) > 1e-9 * scale)
        near = abs(p) < step
    else:
        scale = 1
        near = W.all(p < step, p > -step)
    if near:
        W.check('nearer to zero than a step is zero', W.eq(v, 0))
    else:
        W.check('the point its number selects', close(W, v, p, scale))
        if W.sym: W.check('within the bounds', W.all(lo <= v, v <= hi))
        if k == 0: W.check('the lower bound for 0', close(W, v, lo, scale))
        if k == top: W.check('the upper bound for the maximum', close(W, v, hi, scale))
    # a greater number never gives a smaller value
    raw2 = W.bytes('packed 2', n=n)
    W.assume(W.toint(raw2, n) >= k)
    r2 = W.do(W.imp(M, 'Helpers'), 'packed_u%d_to_float' % width, raw2, 0, lo, hi)
    W.check('monotone', v <= r2)

@unit('C26', '16 bit floats', funs=[H + 'packed_u16_to_float'], runs=400)
def u16(W): point(W, 16)

@unit('C26', '8 bit floats', funs=[H + 'packed_u8_to_float'], runs=400)
def u8(W): point(W, 8)

@unit('C26', 'Integers become their low 32 bits, little endian', funs=[H + 'int_to_bytes'], runs=400)
def int_bytes(W):
    n = W.int('n')
    r = W.attempt(fn(W, 'int_to_bytes'), n)
    W.check('no error', r.ok)
    W.same('bytes', r.value, W.uint(W.mod(n, 2 ** 32), 4))

@unit('C26', 'Quaternions are packed with non-negative W', funs=[H + 'pack_quaternion_to_vector3'])
def quaternion(W):
    q = tuple(W.real(c) for c in 'xyzw')
    v = W.call(fn(W, 'pack_quaternion_to_vector3'), W.arg(q))
    if q[3] >= 0: W.same('components', v, q[:3])
    else: W.same('components of the same rotation', v, (-q[0], -q[1], -q[2]))

DIGITS = b'0123456789ABCDEF'
def digit(W, v):
    """the upper-case hex digit of 0 <= v < 16"""
    return W.byte(W.ite(v < 10, v + 48, v + 55))

@unit('C26', 'Bytes to hex', funs=[H + 'bytes_to_hex'], runs=300)
def to_hex(W):
    data = W.bytes('data')
    r = W.call(fn(W, 'bytes_to_hex'), data)
    n = W.blen(data)
    if n == 0: W.same('nothing', r, b''); return
    last = W.at(data, n - 1)
    two = lambda b: W.cat(digit(W, W.div(b, 16)), digit(W, W.mod(b, 16)))
    W.same('two digits each, separated by a space', r,
           W.cat(W.join(W.upto(n - 1, lambda i: W.at(data, i)), lambda b: W.cat(two(b), b' ')), two(last)))

@unit('C26', 'Hex text to bytes', funs=[H + 'hex_to_ascii'], runs=400)
def from_hex(W):
    if W.bool('from bytes'):
        data = W.bytes('data')
        up = W.bool('upper case')
        n = W.blen(data)
        dig = lambda v: W.byte(W.ite(v < 10, v + 48, v + W.ite(up, 55, 87)))
        text = W.join(W.upto(n, lambda i: W.at(data, i)), lambda b: W.cat(dig(W.div(b, 16)), dig(W.mod(b, 16))))
        r = W.attempt(fn(W, 'hex_to_ascii'), text)
        W.check('converted', r.ok)
        W.same('the bytes', r.value, data)
    else:
        text = W.bytes('text')
        r = W.attempt(fn(W, 'hex_to_ascii'), text)
        if W.mod(W.blen(text), 2) == 1: W.raises('an odd number of digits', r, 'DataParsingError')
        if not r.ok:
            W.raises('only the parsing error', r, 'DataParsingError')
        else:
            W.check('two digits a byte', W.eq(W.blen(r.value) * 2, W.blen(text)))
