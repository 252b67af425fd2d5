from vc import unit
from xread import *
from xenc import SE, S_
from xship import shipped
FUNS = [S_ + 'serialize', S_ + 'build_block', D_ + 'deserialize', D_ + '__decode_data', B + 'message.data_packer.DataPacker.pack_data', B + 'message.data_unpacker.DataUnpacker.unpack_data']

def pair(W, m):
    d = one_template(W, m)
    td = W.get(d, 'template_dict')
    W.patch(SE, 'TemplateDictionary', W.fn(lambda *a, **k: td))
    return W.call(W.imp(SE, 'UDPMessageSerializer'), message_xml=W.stub(validate_udp_msg=W.fn(lambda n: True))), d

def value(W, f, t):
    """(what is given, the check of what is received)"""
    ty = f.type
    if ty in ('MVT_FIXED', 'MVT_IP_ADDR'):
        v = W.bytes('v' + t, n=f.size)
        return v, lambda name, got: W.same(name, got, v)
    if ty == 'MVT_VARIABLE':
        kind = W.choice('text' + t, ['bytes', 'text', 'none'])
        cap = 254 if f.size == 1 else 1000
        if kind == 'bytes': v = W.bytes('v' + t, lo=0, hi=cap); raw = v
        elif kind == 'text': v = W.uni('v' + t); raw = W.utf8(v); W.assume(W.blen(raw) <= cap)
        else: v = None; raw = b''
        d = W.cat(raw, b'\0')
        if f.name == b'Data': return v, lambda name, got: W.same(name, got, d)
        return v, lambda name, got: W.same(name, got, W.call(W.get(raw, 'rstrip'), b'\0'))
    v, vs = xfield.value(W, ty, 'v' + t)
    return v, lambda name, got: xfield.check(W, name, ty, got, xfield.rounded(W, ty, vs))

def trip(W, m, header):
    s, d = pair(W, m)
    M = B + 'message.message'
    Message, Block = W.imp(M, 'Message'), W.imp(M, 'Block')
    msg = W.call(Message, m.name)
    want = []
    for b in m.blocks:
        n = 1 if b.kind == b'Single' else b.count if b.kind == b'Multiple' else W.choice('repeats', [1, 2, 0])
        reps = []
        for r in range(n):
            kw = {}; fs = []
            for f in b.fields:
                v, chk = value(W, f, '%s %s%d' % (f.name.decode('ascii'), b.name.decode('ascii'), r))
                kw[f.name.decode('ascii')] = v; fs.append((f.name, chk))
            W.do(msg, 'add_block', W.call(Block, b.name, **kw))
            reps.append(fs)
        if not n:
            W.do(W.get(msg, 'blocks'), '__setitem__', b.name, W.lst([]))
        want.append((b.name, reps))
    flags = W.int('flags', 0, 127) if header else RELIABLE
    pid = seqno(W, 'id')
    acks = W.lcat(W.lst([]))
    W.set(msg, 'packet_id', pid); W.set(msg, 'send_flags', flags)
    if W.true(W.eq(W.mod(W.div(flags, 16), 2), 1)):
        acks = W.seq('ack', lambda i: seqno(W, 'ack'), 0, 255)
        W.set(msg, 'acks', W.arg(acks))
    data = W.do(s, 'serialize', msg)
    r = W.tryto(d, 'deserialize', data)
    if m.blocks and not [1 for n, l in want if l]:
        W.raises('no block at all', r, 'MessageDeserializationError')
        return
    W.check('no error', r.ok, r)
    check_header(W, 'header', r.value, m, flags, pid, acks)
    blocks = W.get(r.value, 'blocks')
    have = [(n, l) for n, l in want if l]
    W.check('number of blocks', W.eq(W.len(blocks), len(have)))
    for n, reps in have:
        l = W.item(blocks, n)
        W.check('repetitions', W.eq(W.len(l), len(reps)))
        for k, fs in enumerate(reps):
            x = W.item(l, k)
            W.same('order of the fields', W.get(x, 'var_list'), W.lst([f for f, c in fs]))
            for f, c in fs: c('field %s' % f.decode('ascii'), W.get(W.item(W.get(x, 'vars'), f), 'data'))

MORE = [
    ('numbers of both signs', shape(b'Numbers', Blk(b'One', b'Single', 0, [field(b'A', 'MVT_S8'), field(b'B', 'MVT_S16'), field(b'C', 'MVT_U32'), field(b'D', 'MVT_U64'), field(b'E', 'MVT_S64')]))),
    ('more numbers', shape(b'Reals', Blk(b'One', b'Single', 0, [field(b'F', 'MVT_F32'), field(b'G', 'MVT_F64'), field(b'D', 'MVT_BOOL'), field(b'P', 'MVT_IP_PORT'), field(b'I', 'MVT_IP_ADDR', 4)]))),
    ('wide vectors', shape(b'Vec', Blk(b'One', b'Single', 0, [field(b'A', 'MVT_LLVector3d')]), Blk(b'Two', b'Single', 0, [field(b'B', 'MVT_LLVector4')]))),
    ('rotations', shape(b'Rot', Blk(b'One', b'Single', 0, [field(b'A', 'MVT_LLQuaternion'), field(b'F', 'MVT_FIXED', 3)]))),
]
def _shapes():
    for n, m in SHAPES + MORE:
        if n == 'text':
            for w in (1, 2, 4): yield 'text of width %d' % w, shape(b'Text', Blk(b'One', b'Single', 0, [field(b'T', 'MVT_VARIABLE', w)]))
            yield 'data', shape(b'Bin', Blk(b'One', b'Single', 0, [field(b'Data', 'MVT_VARIABLE', 2), field(b'Z', 'MVT_U8')]))
        elif n == 'multiple':
            yield n, shape(b'Multi', Blk(b'M', b'Multiple', 2, [field(b'A', 'MVT_U8')]), Blk(b'N', b'Multiple', 2, [field(b'Data', 'MVT_VARIABLE', 1)]), Blk(b'Z', b'Single', 0, [field(b'F', 'MVT_FIXED', 5)]))
        else: yield n, m
for _n, _m in _shapes():
    def _f(W, m=_m, n=_n): trip(W, m, n in ('none', 'numbers'))
    unit('C05', 'A message with %s comes back' % _n, funs=FUNS, runs=60, bounded='one template; variable blocks up to 2 repetitions; any values (and any flags and acks for two of the templates)')(_f)

def flight(W, s, d, m, t, many=True):
    x = xtpl.Sent(W, m, t, many)
    flags = W.choice('flags' + t, [0, RELIABLE, 0x20, ACK, ACK | RELIABLE])
    pid = seqno(W, 'id' + t)
    acks = [seqno(W, 'ack %d%s' % (i, t)) for i in range(W.choice('acks' + t, [1, 2, 255, 3]))] if flags & ACK else []
    x.message.send_flags = flags; x.message.packet_id = pid; x.message.acks = acks
    data = W.do(s, 'serialize', x.message)
    W.check('a datagram', data is not None)
    r = W.tryto(d, 'deserialize', data)
    if x.blocks and not [1 for n, l in x.blocks if l]:
        W.raises('no block at all', r, 'MessageDeserializationError')
        return
    W.check('no error', r.ok, repr(r.exc))
    W.check('a message', r.value is not None)
    check_header(W, 'header', r.value, m, flags, pid, W.lst(acks))
    x.check('blocks', r.value)

@unit('C05', 'Messages of drawn templates come back', funs=FUNS, mode='conc', runs=400, weight=3, bounded='drawn templates and messages, sequences of up to 5')
def drawn(W):
    msgs = xtpl.draw(W)
    text = xtpl.text(W, msgs)
    s = xdec.encoder(W, text); d = xdec.decoder(W, text)
    for k in range(W.int('messages sent', 1, 5)):
        t = ' %d' % k
        flight(W, s, d, W.choice('which' + t, msgs), t)

@unit('C05', 'Messages of the shipped template come back', funs=FUNS, mode='conc', runs=400, weight=3, bounded='every message of the shipped template that may travel over UDP, drawn values, two per run')
def shipped_messages(W):
    s, d, msgs = shipped(W)
    k = W.seed
    for i in range(2):
        m = msgs[(2 * k + i) % len(msgs)]
        flight(W, s, d, m, ' %d' % i, many=False)
