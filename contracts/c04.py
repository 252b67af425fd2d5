from vc import unit
from xread import *
import xhist
FUNS = [D_ + 'deserialize', D_ + '__decode_data', D_ + '__validate_message', D_ + '__decode_template', D_ + '__decode_header', D_ + '__decode_frequency', D_ + '__decode_num',
        B + 'message.template.MsgData.add_block', B + 'message.template.MsgBlockData.add_variable', B + 'message.data_unpacker.DataUnpacker.unpack_data', B + 'message.message.Message.add_ack']

def decodes(W, m, header):
    """header: any header and acks; else a plain one"""
    d = one_template(W, m)
    pid = seqno(W, 'id')
    extra = W.bytes('extra', lo=0, hi=255) if header else b''
    flags = W.int('flags', 0, 127) if header else RELIABLE
    body = W.bytes('body')
    if W.sym and m.blocks and m.blocks[0].kind == b'Variable': body = W.cat(W.byte(W.choice('repetitions', [0, 1, 2])), body)
    buf = W.cat(W.byte(flags), W.uint(pid, 4, True), W.byte(W.blen(extra)), extra, b'\1', body)
    acks = W.lcat(W.lst([])); whole = buf
    if W.true(W.eq(W.mod(W.div(flags, 16), 2), 1)):
        acks = W.seq('ack', lambda i: seqno(W, 'ack'), 0, 255)
        whole = W.cat(buf, W.join(acks, lambda a: W.uint(a, 4, True)), W.byte(W.len(W.arg(acks))))
    want = read(W, m, buf, 7 + W.blen(extra))
    r = W.tryto(d, 'deserialize', whole)
    if want is None:
        W.check('a field that does not fit gives no message', not r.ok or W.is_none(r.value), r)
    elif m.blocks and not [1 for n, l in want if l]:
        W.raises('no block at all', r, 'MessageDeserializationError')
    else:
        W.check('no error', r.ok, r)
        W.check('a message', W.no(W.is_none(r.value)))
        check_header(W, 'header', r.value, m, flags, pid, acks)
        check_blocks(W, 'blocks', r.value, want)

for _n, _m in SHAPES:
    def _f(W, m=_m, n=_n): decodes(W, m, n in ('none', 'numbers'))
    unit('C04', 'Any datagram of the shape %s' % _n, funs=FUNS, runs=200, weight=2, bounded='one template; variable blocks up to 2 repetitions; any bytes')(_f)

@unit('C04', 'A zero-coded body is expanded before it is read', funs=FUNS[:1], mode='sym')
def zero_coded(W):
    m = SHAPES[0][1]
    d = one_template(W, m)
    body = W.bytes('expanded', lo=0)
    coded = W.bytes('coded', lo=1); extra = W.bytes('extra', lo=0, hi=255)
    def expand(a, k):
        W.same('what is expanded', a[1], coded)
        return W.cat(b'\1', body)
    W.contract(D_ + 'zero_code_expand', expand)
    flags = ZERO | W.choice('flags', [0, RELIABLE]); pid = seqno(W, 'id')
    head = W.cat(W.byte(flags), W.uint(pid, 4, True), W.byte(W.blen(extra)), extra)
    want = read(W, m, W.cat(head, b'\1', body), 7 + W.blen(extra))
    r = W.tryto(d, 'deserialize', W.cat(head, coded))
    if want is None: W.check('a field that does not fit gives no message', not r.ok or W.is_none(r.value), r)
    else:
        W.check('no error', r.ok, r)
        check_header(W, 'header', r.value, m, flags, pid, W.lcat(W.lst([])))
        check_blocks(W, 'blocks', r.value, want)

def pieces(W, msgs, t, d=None):
    """a message, and the datagram that carries it"""
    m = W.choice('which' + t, msgs)
    x = xtpl.Sent(W, m, t)
    zc = W.bool('zero-coded' + t) and len(x.payload) < 3000
    flags = W.choice('flags' + t, [0, RELIABLE, 0x20, RELIABLE | 0x20]) | (zc and ZERO)
    pid = seqno(W, 'id' + t)
    acks = [seqno(W, 'ack %d%s' % (i, t)) for i in range(W.choice('acks' + t, [0, 1, 2, 255, 3]))] if W.bool('acked' + t) else None
    if acks is not None: flags |= ACK
    extra = W.bytes('extra' + t, lo=0, hi=255) if W.bool('extra header' + t) else b''
    tail = W.bytes('after it' + t, lo=0, hi=9) if not W.int('more' + t, 0, 3) else b''
    pay = x.payload + tail
    data = W.cat(W.byte(flags), W.uint(pid, 4, True), W.byte(len(extra)), extra, xhist.zero_code(pay) if zc else pay)
    if acks is not None: data += b''.join([W.uint(a, 4, True) for a in acks]) + W.byte(len(acks))
    return m, x, flags, pid, acks or [], extra, tail, data

@unit('C04', 'Datagrams of drawn templates decode to what they carry', funs=FUNS, mode='conc', runs=500, weight=3, bounded='drawn templates, messages, headers and truncations; sequences of up to 5 datagrams')
def drawn(W):
    msgs = xtpl.draw(W)
    d = xdec.decoder(W, xtpl.text(W, msgs))
    for k in range(W.int('datagrams', 1, 5)):
        t = ' %d' % k
        m, x, flags, pid, acks, extra, tail, data = pieces(W, msgs, t)
        r = W.tryto(d, 'deserialize', data)
        if x.blocks and not [1 for n, l in x.blocks if l]:
            W.raises('no block at all', r, 'MessageDeserializationError')
        else:
            W.check('no error', r.ok, repr(r.exc))
            W.check('a message', r.value is not None)
            check_header(W, 'header', r.value, m, flags, pid, W.lst(acks))
            x.check('blocks', r.value)
        if W.bool('cut' + t) and not flags & (ZERO | ACK) and x.body:
            n = len(data) - len(tail) - W.int('cut by' + t, 1, min(len(x.body), 40))
            r = W.tryto(d, 'deserialize', data[:n])
            W.check('a field that does not fit gives no message', not r.ok or r.value is None, repr(data[:n]))

xhist.register('C04')
