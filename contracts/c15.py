from vc import unit
from xnet import *

CM = CI + '.CircuitManager.'

def manager(W):
    D = W.call(W.imp(CI, 'CircuitManager'))
    holder = W.stub(circuit_manager=D)
    return D, peers(W, holder)

@unit('C15', 'One circuit per address and port', funs=[CM + 'get_circuit', CM + 'add_circuit', CM + 'remove_circuit_data', CM + 'is_circuit_alive'])
def table(W):
    M, t = manager(W)
    h, ip, port = host(W)
    port = W.get(h, 'port')
    known = W.true(W.haskey(t, (ip, port)))
    c = W.item(t, (ip, port)) if known else None
    o = Other(W, t, ip, port)
    h2 = W.call(W.imp(CI, 'Host'), (ip, port))
    op = W.choice('operation', ['get', 'add', 'remove', 'alive'])
    if op == 'get':
        g = W.do(M, 'get_circuit', h2)
        if known: W.check('the circuit of the peer is found', W.same_obj(g, c))
        else: W.check('no circuit of an unknown peer', W.is_none(g))
        W.check('still known or not', W.eq(W.haskey(W.get(M, 'circuit_map'), (ip, port)), known))
    elif op == 'add':
        W.assume(not known)
        n = W.do(M, 'add_circuit', h2, W.int('in'))
        W.check('a fresh circuit', W.all(W.eq(W.get(n, 'last_packet_out_id'), 0), W.eq(W.len(W.get(n, 'acks')), 0), W.eq(W.len(W.get(n, 'unacked_packets')), 0), W.eq(W.get(n, 'unack_packet_count'), 0)))
        W.check('its destination', W.all(W.eq(W.get(n, 'host.ip'), ip), W.eq(W.get(n, 'host.port'), port)))
        W.check('the circuit is found again', W.same_obj(W.do(M, 'get_circuit', h), n))
    elif op == 'remove':
        W.do(M, 'remove_circuit_data', h2)
        W.check('a removed circuit is gone', W.is_none(W.do(M, 'get_circuit', h)))
        W.check('a removed circuit is not alive', W.no(W.true(W.do(M, 'is_circuit_alive', h))))
    else:
        g = W.do(M, 'is_circuit_alive', h2)
        W.check('alive iff there is a circuit that is alive', W.eq(W.true(g), W.get(c, 'is_alive') if known else False))
    o.check(M)

@unit('C15', 'Any three operations in a row', funs=[CM + 'get_circuit', CM + 'add_circuit', CM + 'remove_circuit_data', CM + 'is_circuit_alive'], runs=400, weight=3)
def three(W):
    M = W.call(W.imp(CI, 'CircuitManager'))
    ip, port = W.name('ip'), W.int('port', 1, 65535)
    ip2, port2 = W.name('ip2'), W.int('port2', 1, 65535)
    W.assume(W.any(W.no(W.eq(ip, ip2)), W.no(W.eq(port, port2))))
    H = W.imp(CI, 'Host')
    keys = [(ip, port), (ip2, port2)]
    have = [None, None]
    for n in range(5 if not W.sym else 3):
        who = W.choice('peer%d' % n, [0, 1]); op = W.choice('operation%d' % n, ['get', 'add', 'remove'])
        h = W.call(H, keys[who])
        if op == 'get':
            g = W.do(M, 'get_circuit', h)
            W.check('%d: what is found' % n, W.is_none(g) if have[who] is None else W.same_obj(g, have[who]))
        elif op == 'add':
            have[who] = W.do(M, 'add_circuit', h, 0)
            W.check('%d: its destination' % n, W.all(W.eq(W.get(have[who], 'host.ip'), keys[who][0]), W.eq(W.get(have[who], 'host.port'), keys[who][1])))
        else:
            W.do(M, 'remove_circuit_data', h)
            have[who] = None
        alive = W.do(M, 'is_circuit_alive', W.call(H, keys[who]))
        W.check('%d: alive' % n, W.eq(W.true(alive), have[who] is not None))
    for who in (0, 1):
        g = W.do(M, 'get_circuit', W.call(H, keys[who]))
        W.check('found at the end', W.is_none(g) if have[who] is None else W.same_obj(g, have[who]))

@unit('C15', 'Circuits share no state', funs=[CI + '.Circuit.__init__', CM + '__init__', CM + 'add_circuit'])
def fresh(W):
    M = W.call(W.imp(CI, 'CircuitManager'))
    M2 = W.call(W.imp(CI, 'CircuitManager'))
    h, ip, port = host(W); h2, ip2, port2 = host(W, '2')
    W.assume(W.any(W.no(W.eq(ip, ip2)), W.no(W.eq(port, port2))))
    a = W.do(M, 'add_circuit', h, W.int('in')); b = W.do(M, 'add_circuit', h2, W.int('in2'))
    W.check('the other manager is empty', W.is_none(W.do(M2, 'get_circuit', h)))
    snap = W.snapshot(b, M2)
    for i in range(2):
        m, name = message(W, str(i))
        W.do(a, 'prepare_packet', m, W.choice('flag%d' % i, [0, RELIABLE]))
        W.do(a, 'collect_ack', seqno(W, 'number%d' % i))
    W.do(a, 'ack_reliable_packet', 1)
    W.unchanged('the circuit of another peer', snap)
    W.check('found by an equal address', W.all(W.same_obj(W.do(M, 'get_circuit', W.call(W.imp(CI, 'Host'), (ip, port))), a), W.same_obj(W.do(M, 'get_circuit', W.call(W.imp(CI, 'Host'), (ip2, port2))), b)))

@unit('C15', 'The dispatcher touches only the circuit of the peer', funs=[UD + '.UDPDispatcher.find_circuit', UD + '.UDPDispatcher.receive_check', UD + '.UDPDispatcher.send_message', UD + '.UDPDispatcher.send_reliable'])
def dispatch(W):
    m, pid, rel, acks = incoming(W, acks=False)
    D, sent = dispatcher(W, W.stub(serialize=W.fn(lambda p: b'datagram')), W.stub(deserialize=W.fn(lambda b: m)))
    t = peers(W, D)
    h, ip, port = host(W)
    known = W.true(W.haskey(t, (ip, port)))
    c = W.item(t, (ip, port)) if known else None
    o = Other(W, t, ip, port)
    op = W.choice('operation', ['send', 'send reliably', 'receive', 'find'])
    cm = W.get(D, 'circuit_manager')
    out = W.get(c, 'last_packet_out_id') if known else 0
    if op == 'send': W.do(D, 'send_message', W.call(W.imp(B + 'message.message', 'Message'), b'PacketAck'), h)
    elif op == 'send reliably': W.do(D, 'send_reliable', W.call(W.imp(B + 'message.message', 'Message'), b'PacketAck'), h, 3)
    elif op == 'receive': W.do(D, 'receive_check', h, b'x', 1)
    else: W.do(D, 'find_circuit', h)
    t2 = W.get(cm, 'circuit_map')
    n = W.item(t2, (ip, port))
    if known: W.check('the circuit of the peer is kept', W.same_obj(n, c))
    W.check('its destination is the peer', W.all(W.eq(W.get(n, 'host.ip'), ip), W.eq(W.get(n, 'host.port'), port)))
    W.check('its numbers', W.eq(W.get(n, 'last_packet_out_id'), out + (1 if op.startswith('send') else 0)))
    if op.startswith('send'): W.same('the datagram goes to the peer', sent, W.lst([(b'datagram', ip, port)]))
    else: W.same('nothing is sent', sent, W.lst([]))
    o.check(cm)

@unit('C15', 'The host of a circuit does not change with later datagrams', mode='conc', funs=[B + 'network.net.NetUDPClient.receive_packet'], bounded='histories of up to 12 datagrams from up to 4 peers', runs=150)
def senders(W):
    N = W.imp(B + 'network.net')
    c = N.NetUDPClient()
    inbox = []
    sock = W.stub(recvfrom=lambda n: inbox.pop(0))
    CMg = W.imp(CI, 'CircuitManager')
    M = CMg()
    seen = {}
    for i in range(W.int('n', 0, 12)):
        a = ('10.0.0.%d' % W.int('h%d' % i, 1, 2), W.int('p%d' % i, 1, 2))
        inbox.append(('data', a))
        c.receive_packet(sock)
        h = c.get_sender()
        W.check('the sender', h.ip == a[0] and h.port == a[1])
        k = M.get_circuit(h)
        W.check('known iff seen before', (k is not None) == (a in seen))
        if k is None: k = seen[a] = M.add_circuit(h, -1)
        W.check('the same circuit', k is seen[a])
        for b in seen:
            W.check('every circuit keeps its destination', (seen[b].host.ip, seen[b].host.port) == b)

import xhist
xhist.register('C15')
