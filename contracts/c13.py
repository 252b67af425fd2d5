from vc import unit
from xnet import *

A = UD + '.UDPDispatcher.'
FUNS = [A + 'process_acks', A + '__send_acks', A + '__resend_all_unacked', A + 'has_unacked', A + 'send_message', A + '__send_message', A + 'find_circuit',
        CI + '.Circuit.prepare_packet', CI + '.Circuit.next_packet_id']

def recorder(W):
    """a serializer that records the acks a message lists; the wire carries the number of the message"""
    made = W.log()
    def ser(m):
        ids = [W.get(W.do(b, 'get_variable', b'ID'), 'data') for b in W.items(W.do(m, 'get_block', b'Packets'))]
        W.note(made, W.get(m, 'name'), W.get(m, 'send_flags'), ids)
        return W.cat(b'#', W.uint(W.len(made) - 1, 4, True))
    return W.stub(serialize=W.fn(ser)), made

def acked(W, made, sent, peers):
    """what was sent to each peer"""
    got = dict([(i, []) for i in range(len(peers))])
    W.check('each message is sent once', W.len(sent) == W.len(made))
    for i in range(W.len(sent)):
        data, ip, port = W.item(sent, i)
        name, flags, ids = W.item(made, i)
        W.check('an acknowledgement message', W.eq(name, b'PacketAck'))
        W.check('flags', W.eq(flags, 0))
        W.check('the message', W.eq(data, W.cat(b'#', W.uint(i, 4, True))))
        W.check('1 to 255 acks', 1 <= len(ids) <= 255, len(ids))
        to = [k for k, (a, b) in enumerate(peers) if W.true(W.all(W.eq(ip, a), W.eq(port, b)))]
        W.check('to a peer', len(to) == 1)
        for k in to: got[k] += ids
    return got

def circuits(W, D, lens):
    cs = []
    t = []
    for k, n in enumerate(lens):
        p = (b'10.0.0.%d' % k if k != 1 else b'10.0.0.0', 1 + k)
        c = W.call(W.imp(CI, 'Circuit'), W.call(W.imp(CI, 'Host'), p), None)
        out = W.int('out %d' % k, 0, 2 ** 32 - 1000)
        W.set(c, 'last_packet_out_id', out)
        ids = [seqno(W, 'ack %d %d' % (k, i)) for i in range(n)]
        W.set(c, 'acks', W.lst(list(ids)))
        W.set(c, 'unacked_packets', W.pairs([(W.int('waits %d' % k, 1), W.opaque('packet %d' % k))]) if W.bool('waiting %d' % k) and not W.sym else W.pairs([]))
        cs.append((p, c, ids, out)); t.append((p, c))
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', W.pairs(t))
    return cs

def flush(W, lens):
    S = W.call(W.imp(B + 'settings', 'Settings'), True)
    ser, made = recorder(W)
    D, sent = dispatcher(W, ser, settings=S)
    if not W.sym: W.set(S, 'LOG_VERBOSE', W.bool('verbose'))
    cs = circuits(W, D, lens)
    W.check('owed acks are reported', W.eq(W.do(D, 'has_unacked'), any(lens)))
    W.do(D, 'process_acks')
    got = acked(W, made, sent, [p for p, c, ids, out in cs])
    for k, (p, c, ids, out) in enumerate(cs):
        W.same('acks sent to peer %d' % k, W.lst(got[k]), W.lcat(W.lst(ids)))
        W.check('nothing is owed to peer %d' % k, W.len(W.get(c, 'acks')) == 0)
    W.check('no owed acks are reported', W.eq(W.do(D, 'has_unacked'), False))
    n = W.len(sent)
    W.do(D, 'process_acks')
    W.check('nothing more is sent', W.len(sent) == n)

@unit('C13', 'One peer, any number of acks: each is sent once, in order', funs=FUNS, weight=3)
def any_number(W):
    S = W.call(W.imp(B + 'settings', 'Settings'), True)
    flat = W.log()
    state = W.cell(good=True, count=0, sent=0)
    def ser(m):
        ids = W.map(W.do(m, 'get_block', b'Packets'), lambda b: W.get(W.do(b, 'get_variable', b'ID'), 'data'))
        W.extend(flat, ids)
        n = W.len(ids)
        W.set(state, 'good', W.all(W.get(state, 'good'), W.eq(W.get(m, 'name'), b'PacketAck'), W.eq(W.get(m, 'send_flags'), 0), n >= 1, n <= 255))
        W.set(state, 'count', W.get(state, 'count') + 1)
        return W.cat(b'#', W.uint(W.get(state, 'count'), 4, True))
    D, sent = dispatcher(W, W.stub(serialize=W.fn(ser)), settings=S)
    p = (b'10.0.0.1', 7)
    def send(sock, data, h):
        W.set(state, 'good', W.all(W.get(state, 'good'), W.eq(W.get(h, 'ip'), p[0]), W.eq(W.get(h, 'port'), p[1]),
                                   W.eq(data, W.cat(b'#', W.uint(W.get(state, 'count'), 4, True)))))
        W.set(state, 'sent', W.get(state, 'sent') + 1)
    W.set(D, 'udp_client', W.stub(send_packet=W.fn(send)))
    c = W.call(W.imp(CI, 'Circuit'), W.call(W.imp(CI, 'Host'), p), None)
    W.set(c, 'last_packet_out_id', W.int('out', 0, 2 ** 31))
    owed = W.list('owed', lambda i: seqno(W, 'ack'))
    want = W.lcat(owed)
    W.set(c, 'acks', owed)
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', W.pairs([(p, c)]))
    W.check('owed acks are reported', W.eq(W.do(D, 'has_unacked'), W.len(want) > 0))
    W.do(D, 'process_acks')
    W.same('the acks sent', flat, want)
    W.check('in acknowledgement messages of 1 to 255, to the peer', W.get(state, 'good'))
    W.check('each message is sent once', W.eq(W.get(state, 'sent'), W.get(state, 'count')))
    W.check('nothing is owed', W.len(W.get(c, 'acks')) == 0)

@unit('C13', 'One peer: each owed ack is sent once, in order', funs=FUNS, weight=3, runs=150, bounded='0 to 3, 250 to 252, 255, 256, 502 acks in the prover, up to 1200 outside; values arbitrary')
def one(W):
    flush(W, [W.choice('owed', [0, 1, 2, 3, 250, 251, 252, 255, 256, 502] if W.sym else [0, 1, 2, 250, 251, 252, 254, 255, 256, 502, 503, 600, 1200])])

@unit('C13', 'Several peers: each owed ack is sent once, to its peer', funs=FUNS, weight=2, runs=300, bounded='up to 3 peers owed up to 2 acks each in the prover, 6 peers and up to 300 acks outside; values arbitrary')
def several(W):
    if W.sym: flush(W, [W.choice('owed %d' % i, [0, 1, 2]) for i in range(3)])
    else: flush(W, [W.choice('owed %d' % i, [0, 0, 1, 2, 3, 251, 256, 300]) for i in range(W.int('peers', 0, 6))])

import xhist
xhist.register('C13')
