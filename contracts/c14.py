from vc import unit
from xnet import *
from xenc import Anything, generic, layout_of, FUNS as ENCODER
from xread import one_template, trailer, SHAPES, check_header, D_
import xdec, xtpl, xhist

C = CI + '.Circuit.'

@unit('C14', 'A message prepared for sending carries the acks owed', funs=[C + 'prepare_packet', B + 'message.message.Message.add_ack'])
def prepare(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    m, name = message(W)
    flag = W.choice('flag', [0, RELIABLE, RESENT])
    W.do(c.obj, 'prepare_packet', m, flag)
    n = W.len(W.arg(c.owed))
    some = W.true(W.all(n > 0, W.no(W.eq(name, b'PacketAck'))))
    W.check('flags', W.eq(W.get(m, 'send_flags'), flag + ACK if some else flag))
    want = W.lslice(c.owed, 0, W.ite(n > 255, 255, n)) if some else W.lcat(W.lst([]))
    W.same('acks', W.get(m, 'acks'), want)
    W.check('their number', W.eq(W.get(m, 'num_acks'), W.len(W.arg(want))))

def flagged(W, flags): return W.true(W.eq(W.mod(W.div(flags, 16), 2), 1))

@unit('C14', 'The acks of a message end its datagram iff it has the ack flag', funs=ENCODER[:2], mode='sym', weight=2)
def ends(W):
    a = Anything(W)
    s = generic(W, a)
    flags = W.int('flags', 0, 255); pid = seqno(W, 'id')
    acks = W.seq('ack', lambda i: seqno(W, 'ack'), 0, 255)
    W.set(a.message, 'packet_id', pid)
    W.set(a.message, 'acks', W.arg(acks))
    W.set(a.message, 'send_flags', flags)
    got = W.do(s, 'serialize', a.message)
    want = W.cat(W.byte(flags), W.uint(pid, 4, True), b'\0', a.number, layout_of(W, a))
    if W.true(W.eq(a.name, b'RegionHandshakeReply')): want = W.cat(want, b'\0\0\0\0')
    if flagged(W, flags): want = W.cat(want, W.join(acks, lambda x: W.uint(x, 4, True)), W.byte(W.len(W.arg(acks))))
    W.same('datagram', got, want)

@unit('C14', 'The acks of a datagram are recovered', funs=[D_ + 'deserialize', D_ + '__decode_data', B + 'message.message.Message.add_ack'],
      bounded='one template; any header, body and acks')
def recovered(W):
    m = SHAPES[W.choice('template', [5, 0])][1]
    d = one_template(W, m)
    flags = W.int('flags', 0, 127); pid = seqno(W, 'id')
    extra = W.bytes('extra', lo=0, hi=255); body = W.bytes('body', lo=sum([f.size for b in m.blocks for f in b.fields]))
    acks = W.lcat(W.lst([]))
    data = W.cat(W.byte(flags), W.uint(pid, 4, True), W.byte(W.blen(extra)), extra, b'\1', body)
    if flagged(W, flags):
        acks = W.seq('ack', lambda i: seqno(W, 'ack'), 0, 255)
        data = W.cat(data, W.join(acks, lambda a: W.uint(a, 4, True)), W.byte(W.len(W.arg(acks))))
    r = W.tryto(d, 'deserialize', data)
    W.check('no error', r.ok, r)
    W.same('acks', W.get(r.value, 'acks'), W.arg(acks))
    W.check('their number', W.eq(W.get(r.value, 'num_acks'), W.len(W.arg(acks))))
    W.check('the flag', W.eq(W.get(r.value, 'send_flags'), flags))

@unit('C14', 'Sent acks arrive with drawn templates', funs=[], mode='conc', runs=200, bounded='drawn templates and messages, sequences of up to 4 datagrams')
def arrive(W):
    msgs = xtpl.draw(W)
    text = xtpl.text(W, msgs)
    s = xdec.encoder(W, text); d = xdec.decoder(W, text)
    h, ip, port = host(W)
    c = W.call(W.imp(CI, 'Circuit'), h, 0)
    for k in range(W.int('datagrams', 1, 4)):
        t = ' %d' % k
        m = W.choice('which' + t, msgs)
        x = xtpl.Sent(W, m, t)
        owed = [seqno(W, 'owed %d%s' % (i, t)) for i in range(W.choice('how many' + t, [0, 1, 2, 3, 254, 255, 256, 300]))]
        c.acks = list(owed)
        if W.bool('reliably' + t): c.prepare_packet(x.message, RELIABLE)
        else: c.prepare_packet(x.message)
        some = bool(owed) and m.name != b'PacketAck'
        data = W.do(s, 'serialize', x.message)
        want = owed[:255] if some else []
        W.check('the flag', bool(ord(data[0]) & ACK) == some)
        W.check('ends with the acks', data == data[:6] + x.payload + x.pad + (b''.join([W.uint(a, 4, True) for a in want]) + W.byte(len(want)) if some else b''), repr(data))
        r = W.tryto(d, 'deserialize', data)
        if x.blocks and not [1 for n, l in x.blocks if l]: continue
        W.check('no error', r.ok, repr(r.exc))
        W.check('received', list(r.value.acks) == want, repr((r.value.acks, want)))

xhist.register('C14')
