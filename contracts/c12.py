from vc import unit
from xnet import *

C = CI + '.Circuit.'

def owes(W, name, c, new):
    W.same(name, W.get(c, 'acks'), W.arg(new))

@unit('C12', 'A decoded packet is queued for acknowledgement iff it is reliable', funs=[C + 'handle_packet', C + 'collect_ack', C + 'ack_reliable_packet'])
def handle(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    m, pid, rel, acks = incoming(W)
    W.do(c.obj, 'handle_packet', m)
    owes(W, 'acks owed', c.obj, W.lcat(c.owed, W.lst([pid])) if W.true(rel) else c.owed)

@unit('C12', 'Other operations of a circuit do not change the acks owed', funs=[C + 'prepare_packet', C + 'ack_reliable_packet', C + 'add_reliable_packet'])
def others(W):
    h, ip, port = host(W)
    c = Circ(W, h)
    if W.choice('operation', ['send', 'ack']) == 'send':
        m, name = message(W)
        W.do(c.obj, 'prepare_packet', m, W.choice('flag', [0, RELIABLE, RESENT]))
    else:
        W.do(c.obj, 'ack_reliable_packet', seqno(W, 'number'))
    owes(W, 'acks owed', c.obj, c.owed)

@unit('C12', 'A received datagram is queued for acknowledgement iff it is reliable and was understood', funs=[UD + '.UDPDispatcher.receive_check', UD + '.UDPDispatcher.find_circuit', CI + '.CircuitManager.get_circuit'])
def receive(W):
    how = W.choice('the decoder gives', ['message', 'nothing', 'error', 'no datagram'])
    h, ip, port = host(W)
    m, pid, rel, acks = incoming(W, acks=False)
    if how == 'nothing':
        buf, flags, pid, acks = skipped(W)
        rel = W.eq(W.mod(W.div(flags, 64), 2), 1)
    elif how == 'no datagram': buf = b''
    else:
        buf = W.bytes('datagram', lo=1)
    def des(b):
        if how == 'message': return m
        if how == 'error': W.throw('ValueError', b'no')
        return None
    D, sent = dispatcher(W, None, W.stub(deserialize=W.fn(des)))
    known = W.bool('known peer')
    t = peers(W, D)
    W.assume(W.eq(W.haskey(t, (ip, port)), known))
    before = W.lcat(W.get(W.item(t, (ip, port)), 'acks')) if W.true(known) else W.lcat(W.lst([]))
    o = Other(W, t, ip, port)
    r = W.tryto(D, 'receive_check', h, buf, W.len(buf))
    cm = W.get(D, 'circuit_manager')
    t = W.get(cm, 'circuit_map')
    if how == 'error': W.raises('a decoding error reaches the caller', r, 'ValueError')
    else: W.check('no error', r.ok, r)
    if how != 'no datagram' or W.true(known):
        c = W.item(t, (ip, port))
        queued = how in ('message', 'nothing') and W.true(rel)
        owes(W, 'acks owed', c, W.lcat(before, W.lst([pid])) if queued else before)
    o.check(cm)

import xhist
xhist.register('C12')
