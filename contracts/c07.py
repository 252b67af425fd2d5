from vc import unit
from xdec import *
Z = DE + '.UDPMessageDeserializer.zero_code_expand'

def encode(rng, plain):
    """some zero-coded form: every run of zeros is split at random"""
    out, i = [], 0
    while i < len(plain):
        if plain[i] != '\0': out.append(plain[i]); i += 1; continue
        j = i
        while j < len(plain) and plain[j] == '\0' and j - i < 255: j += 1
        k = j - i if rng.random() < 0.6 else rng.randint(1, j - i)
        out.append('\0' + chr(k)); i += k
    return ''.join(out)

def plain_text(rng):
    parts = []
    for _ in range(rng.randint(0, 8)):
        r = rng.random()
        if r < 0.45: parts.append('\0' * rng.choice([1, 1, 2, 3, 4, 5, 9, 100, 254, 255, 256, 257, 511, 600]))
        elif r < 0.6: parts.append(chr(rng.choice([1, 2, 255])) * rng.randint(1, 4))
        else: parts.append(''.join([chr(rng.randint(0, 255)) for _ in range(rng.randint(1, 12))]))
    return ''.join(parts)

def zero_coded(at, i, n):
    """every zero is followed by a count that is not zero"""
    return W_.any(W_.no(W_.eq(at(i), 0)), W_.all(i + 1 < n, W_.no(W_.eq(at(i + 1), 0)))) if W_.sym else (at(i) != 0 or (i + 1 < n and at(i + 1) != 0))
W_ = None

def coded(W, name):
    global W_
    W_ = W
    return W.bytes(name, where=zero_coded, draw=lambda rng: encode(rng, plain_text(rng)))

def expansion(W, enc):
    """what a zero-coded string stands for"""
    n = W.blen(enc)
    f = W.fold(False, lambda s, i: W.eq(W.at(enc, i), 0))      # the byte at i is a count
    def piece(i):
        c = W.at(enc, i)
        if W.eq(c, 0): return b'\0'
        if f.at(i): return W.zeros(c - 1)                      # the zero itself is in the result already
        return W.byte(c)
    return W.join(W.upto(n, lambda i: i), piece)

@unit('C07', 'Zero-run expansion of every zero-coded string', funs=[Z], runs=600)
def zero(W):
    d = decoder(W)
    first = coded(W, 'earlier')
    W.do(d, 'zero_code_expand', first, W.blen(first))
    enc = coded(W, 'coded')
    want = expansion(W, enc)
    W.same('expanded', W.do(d, 'zero_code_expand', enc, W.blen(enc)), want)
    W.same('expanded again', W.do(d, 'zero_code_expand', enc, W.blen(enc)), want)

@unit('C07', 'Expansion inverts zero-coding', mode='conc', runs=600)
def inverse(W):
    plain = W.bytes('plain', draw=plain_text)
    seed = W.int('split', 0, 2 ** 30)
    import random
    enc = encode(random.Random(seed), plain)
    d = W.base['decoder']
    W.same('the string', W.do(d, 'zero_code_expand', enc, len(enc)), plain)
inverse_ = [u for u in __import__('vc').UNITS if u.fn is inverse][0]
inverse_.bases = [('decoder', lambda W: decoder(W))]

TEXT = b'''version 2.0
{
\tTiny High 1 NotTrusted Zerocoded
\t{
\t\tOnly\tSingle
\t\t{\tA\tU8\t}
\t\t{\tData\tVariable 2\t}
\t}
}
'''

def view(W, o):
    """what a decoding gives"""
    if not o.ok: return ('error', b'MessageDeserializationError' if 'MessageDeserializationError' in o.names else b'other')
    m = o.value
    if W.is_none(m): return ('none',)
    b = W.item(W.item(W.get(m, 'blocks'), b'Only'), 0)
    v = lambda n: W.get(W.item(W.get(b, 'vars'), n), 'data')
    return ('message', W.get(m, 'name'), W.get(m, 'packet_id'), W.get(m, 'reliable'), W.lcat(W.get(m, 'acks')), v(b'A'), v(b'Data'))

@unit('C07', 'Only the body of a datagram is expanded', funs=[DE + '.UDPMessageDeserializer.deserialize'], runs=400)
def datagram(W):
    d = decoder(W, TEXT)
    flags = W.choice('flags', [0, 0x40])
    pid = W.bytes('pid', n=4)
    k = W.choice('extra header', [0, 1, 3])
    extra = W.bytes('extra', n=k)
    nacks = W.choice('acks', [None, 0, 1, 2])
    tail = b'' if nacks is None else W.cat(W.bytes('ack', n=4 * nacks), W.byte(nacks))
    if nacks is not None: flags += 0x10
    head = W.cat(pid, W.byte(k), extra)
    if W.sym:
        # any two strings of which the one expands to the other
        enc = W.bytes('coded', lo=1); plain = W.bytes('plain', lo=1)
        def callee(a, kw):
            W.same('the body is what is expanded', a[1] if len(a) > 2 else a[0], enc)
            return plain
        W.contract(Z, callee)
    else:
        import random
        n = W.int('size', 0, 400)
        plain = W.bytes('plain', draw=lambda rng: '\1' + chr(rng.choice([0, 7])) + (lambda s: W.uint(len(s), 2) + s)(plain_text(rng)) if rng.random() < 0.8 else plain_text(rng))
        enc = encode(random.Random(W.int('split', 0, 2 ** 30)), plain)
        W.assume(len(plain) > 0)
    coded_ = W.tryto(d, 'deserialize', W.cat(W.byte(flags + 0x80), head, enc, tail))
    a = view(W, coded_)
    flat = W.tryto(d, 'deserialize', W.cat(W.byte(flags), head, plain, tail))
    b = view(W, flat)
    W.check('the same outcome', a[0] == b[0])
    if a[0] == 'message':
        for x, y, what in zip(a[1:], b[1:], ['name', 'sequence number', 'reliable', 'acks', 'A', 'Data']): W.same(what, x, y)
    elif a[0] == 'error': W.check('the same error', a[1] == b[1])
