from vc import unit
from xnet import *

C = CI + '.Circuit.'

@unit('C10', 'A new circuit counts from 1', funs=[C + '__init__', C + 'prepare_packet', C + 'next_packet_id'])
def first(W):
    h, ip, port = host(W)
    c = W.call(W.imp(CI, 'Circuit'), h, W.int('last_in'))
    for n in (1, 2, 3):
        m, name = message(W, str(n))
        W.do(c, 'prepare_packet', m, W.choice('flag%d' % n, [0, RELIABLE, RESENT]), W.int('retries%d' % n, 0, 9))
        W.check('packet %d' % n, W.eq(W.get(m, 'packet_id'), n))

@unit('C10', 'The next packet of a circuit has the next number', funs=[C + 'prepare_packet', C + 'next_packet_id', C + 'add_reliable_packet'])
def step(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    m, name = message(W)
    how = W.choice('how', ['default', 0, RELIABLE, RESENT, 'retries'])
    if how == 'default': W.do(c.obj, 'prepare_packet', m)
    elif how == 'retries': W.do(c.obj, 'prepare_packet', m, flag=RELIABLE, retries=W.int('retries', 0, 100))
    else: W.do(c.obj, 'prepare_packet', m, how)
    W.check('its number', W.eq(W.get(m, 'packet_id'), c.out + 1))
    m2, name2 = message(W, 'b')
    W.do(c.obj, 'prepare_packet', m2)
    W.check('the number of the one after it', W.eq(W.get(m2, 'packet_id'), c.out + 2))
    W.check('the first keeps its number', W.eq(W.get(m, 'packet_id'), c.out + 1))

@unit('C10', 'Receiving does not use up numbers', funs=[C + 'handle_packet', C + 'ack_reliable_packet', C + 'collect_ack'])
def receiving(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    op = W.choice('operation', ['handle', 'ack', 'collect'])
    if op == 'handle': W.do(c.obj, 'handle_packet', incoming(W)[0])
    elif op == 'ack': W.do(c.obj, 'ack_reliable_packet', seqno(W, 'number'))
    else: W.do(c.obj, 'collect_ack', seqno(W, 'number'))
    m, name = message(W)
    W.do(c.obj, 'prepare_packet', m)
    W.check('the next number', W.eq(W.get(m, 'packet_id'), c.out + 1))

@unit('C10', 'The dispatcher sends with the number of the circuit', funs=[UD + '.UDPDispatcher.send_message', UD + '.UDPDispatcher.send_reliable', UD + '.UDPDispatcher.find_circuit'])
def dispatch(W):
    seen = W.log()
    fails = W.bool('cannot_be_serialized')
    def ser(p):
        W.note(seen, W.get(p, 'packet_id'))
        if fails: W.throw('Exception', b'no')
        return b'datagram'
    D, sent = dispatcher(W, W.stub(serialize=W.fn(ser)), outgoing=W.bool('handle_outgoing'))
    h, ip, port = host(W)
    c = Circ(W, h)
    h2, ip2, port2 = host(W, '2')
    c2 = Circ(W, h2, '2')
    W.assume(W.any(W.no(W.eq(ip, ip2)), W.no(W.eq(port, port2))))
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', W.pairs([((ip2, port2), c2.obj), ((ip, port), c.obj)]))
    m, name = message(W)
    how = W.choice('how', ['plain', 'reliable'])
    if how == 'plain': W.do(D, 'send_message', m, h)
    else: W.do(D, 'send_reliable', m, h, W.int('retries', 0, 9))
    W.same('serialized once, with the next number', seen, W.lst([c.out + 1]))
    W.same('sent once, to the host', sent, W.lst([]) if fails else W.lst([(b'datagram', ip, port)]))
    m2 = W.call(W.imp(B + 'message.message', 'Message'), b'PacketAck')
    W.do(c2.obj, 'prepare_packet', m2)
    W.check('the next number of the other circuit', W.eq(W.get(m2, 'packet_id'), c2.out + 1))
    m3 = W.call(W.imp(B + 'message.message', 'Message'), b'PacketAck')
    W.do(c.obj, 'prepare_packet', m3)
    W.check('the next number of this circuit', W.eq(W.get(m3, 'packet_id'), c.out + 2))

import xhist
xhist.register('C10')
