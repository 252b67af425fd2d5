from vc import unit
from xnet import *

C = CI + '.Circuit.'

@unit('C11', 'Sending: what is sent reliably is outstanding', funs=[C + 'prepare_packet', C + 'add_reliable_packet'])
def sending(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    m, name = message(W)
    how = W.choice('how', ['default', 0, RELIABLE, RESENT])
    if how == 'default': W.do(c.obj, 'prepare_packet', m)
    else: W.do(c.obj, 'prepare_packet', m, how, W.int('retries', 0, 9))
    w.check('outstanding', (c.out + 1, m) if how == RELIABLE else None)
    W.check('marked reliable', W.eq(W.mod(W.div(W.get(m, 'send_flags'), 64), 2), 1 if how == RELIABLE else 0))
    if how == RESENT: W.check('marked resent', W.eq(W.mod(W.div(W.get(m, 'send_flags'), 32), 2), 1))

@unit('C11', 'An ack removes exactly its packet', funs=[C + 'ack_reliable_packet'])
def ack(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    n = seqno(W, 'number') if W.sym else W.int('number', 0, 45)
    W.do(c.obj, 'ack_reliable_packet', n)
    w.check('outstanding', None, W.eq(n, w.k))
    W.do(c.obj, 'ack_reliable_packet', n)
    w.check('outstanding after the same ack again', None, W.eq(n, w.k))

@unit('C11', 'The acks of a decoded packet remove exactly their packets', funs=[C + 'handle_packet', C + 'ack_reliable_packet', C + 'collect_ack'])
def handle(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    m, pid, rel, acks = incoming(W)
    w.acks(acks)
    W.do(c.obj, 'handle_packet', m)
    w.check('outstanding', None, w.gone())

@unit('C11', 'Collecting an ack for the peer changes nothing', funs=[C + 'collect_ack'])
def collect(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    W.do(c.obj, 'collect_ack', seqno(W, 'number'))
    w.check('outstanding')

@unit('C11', 'A received datagram: its acks remove exactly their packets', funs=[UD + '.UDPDispatcher.receive_check'])
def receive(W):
    how = W.choice('the decoder gives', ['message', 'nothing', 'error'])
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    m, pid, rel, acks = incoming(W)
    if how == 'nothing':
        buf, flags, pid, acks = skipped(W)
    else:
        buf = W.bytes('datagram', lo=1)
    def des(b):
        if how == 'message': return m
        if how == 'error': W.throw('ValueError', b'no')
        return None
    D, sent = dispatcher(W, None, W.stub(deserialize=W.fn(des)))
    h2, ip2, port2 = host(W, '2')
    c2 = Circ(W, h2, '2')
    W.assume(W.any(W.no(W.eq(ip, ip2)), W.no(W.eq(port, port2))))
    snap = W.snapshot(c2.obj)
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', W.pairs([((ip2, port2), c2.obj), ((ip, port), c.obj)]))
    w.acks(acks)
    r = W.tryto(D, 'receive_check', h, buf, W.len(buf))
    if how == 'error':
        W.raises('a decoding error reaches the caller', r, 'ValueError')
        w.check('outstanding')
    else:
        W.check('no error', r.ok, r)
        w.check('outstanding', None, w.gone())
    W.unchanged('the circuit of another peer', snap)

@unit('C11', 'Dispatcher: what is sent reliably is outstanding', funs=[UD + '.UDPDispatcher.send_message', UD + '.UDPDispatcher.send_reliable'])
def dispatch(W):
    flags = W.log()
    def ser(p):
        W.note(flags, W.mod(W.div(W.get(p, 'send_flags'), 64), 2))
        return b'datagram'
    D, sent = dispatcher(W, W.stub(serialize=W.fn(ser)))
    h, ip, port = host(W)
    c = Circ(W, h)
    w = Waiting(W, c)
    h2, ip2, port2 = host(W, '2')
    c2 = Circ(W, h2, '2')
    W.assume(W.any(W.no(W.eq(ip, ip2)), W.no(W.eq(port, port2))))
    snap = W.snapshot(c2.obj)
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', W.pairs([((ip2, port2), c2.obj), ((ip, port), c.obj)]))
    m = W.call(W.imp(B + 'message.message', 'Message'), W.name('name'))
    rel = W.bool('reliable')
    if W.true(rel): W.do(D, 'send_reliable', m, h, W.int('retries', 0, 9))
    else: W.do(D, 'send_message', m, h)
    w.check('outstanding', (c.out + 1, m) if W.true(rel) else None)
    W.same('reliable flag on the wire', flags, W.lst([W.ite(rel, 1, 0)]))
    W.unchanged('the circuit of another peer', snap)

import xhist
xhist.register('C11')
