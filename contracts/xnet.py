# shared parts of the contracts of circuits and the dispatcher
from vc import unit
B = 'pyogp.lib.base.'
CI = B + 'message.circuit'
UD = B + 'message.udpdispatcher'
RELIABLE, RESENT, ACK, ZERO = 0x40, 0x20, 0x10, 0x80

def host(W, tag=''):
    ip = W.name('ip' + tag); port = W.int('port' + tag, 1, 65535)
    return W.call(W.imp(CI, 'Host'), (ip, port)), ip, port

def seqno(W, name): return W.int(name, 0, 2 ** 32 - 1)

class Circ(object):
    """a circuit in an arbitrary state"""
    def __init__(self, W, h, tag=''):
        self.host = h
        self.obj = C = W.call(W.imp(CI, 'Circuit'), h, W.int('last_in' + tag))
        self.out = W.int('out' + tag, 0, 2 ** 32 - 10)
        W.set(C, 'last_packet_out_id', self.out)
        self.owed = W.list('acks' + tag, lambda i: seqno(W, 'ack' + tag))
        W.set(C, 'acks', self.owed)
        self.owed = W.lcat(self.owed)
        self.waiting = W.mapping('waiting' + tag, lambda i: W.int('key' + tag, 1, 40), lambda i: W.opaque('packet' + tag))
        W.set(C, 'unacked_packets', self.waiting)
        self.count = W.len(self.waiting)
        W.set(C, 'unack_packet_count', self.count)

def message(W, tag=''):
    """an outgoing message whose contents do not matter"""
    name = W.choice('kind' + tag, [b'PacketAck', None])
    if name is None:
        name = W.name('name' + tag)
        W.assume(W.no(W.eq(name, b'PacketAck')))
    m = W.call(W.imp(B + 'message.message', 'Message'), name)
    if W.bool('was sent before' + tag):
        W.set(m, 'packet_id', seqno(W, 'old id' + tag))
        W.set(m, 'send_flags', W.int('old flags' + tag, 0, 255))
        W.set(m, 'retries', W.int('old retries' + tag, 0, 9))
        W.set(m, 'acks', W.list('old acks' + tag, lambda i: seqno(W, 'old ack' + tag), 0, 255))
        W.set(m, 'num_acks', W.len(W.get(m, 'acks')))
    return m, name

def incoming(W, tag='', acks=True):
    """a decoded message: sequence number, reliable or not, appended acks"""
    m = W.call(W.imp(B + 'message.message', 'Message'), W.name('inname' + tag))
    pid = seqno(W, 'inid' + tag); rel = W.bool('inreliable' + tag)
    W.set(m, 'packet_id', pid)
    W.set(m, 'reliable', rel)
    l = W.list('inacks' + tag, lambda i: W.int('inack' + tag, 0, 40) if not W.sym else seqno(W, 'inack' + tag), 0, 255) if acks else W.lst([])
    W.set(m, 'acks', l)
    return m, pid, rel, W.lcat(l)

def client(W, log):
    """a UDP client that records what is sent"""
    def send(sock, data, h):
        W.note(log, data, W.get(h, 'ip'), W.get(h, 'port'))
    return W.stub(start_udp_connection=W.fn(lambda: W.stub()), send_packet=W.fn(send), sender=None)

def dispatcher(W, ser=None, des=None, handler=None, settings=None, outgoing=False):
    """a dispatcher that serializes, deserializes and delivers with stand-ins"""
    sent = W.log()
    W.patch(UD, 'UDPMessageSerializer', W.fn(lambda *a, **k: ser))
    W.patch(UD, 'UDPMessageDeserializer', W.fn(lambda *a, **k: des))
    xml = W.stub(validate_udp_msg=W.fn(lambda n: True))
    W.contract(B + 'helpers.Helpers.bytes_to_hex', lambda a, k: b'hex')
    if handler is None: handler = W.stub(handle=W.fn(lambda m: None))
    if settings is None:
        settings = W.call(W.imp(B + 'settings', 'Settings'), *W.choice('logging', [(False, True), (True, False)]))
        W.set(settings, 'HANDLE_OUTGOING_PACKETS', outgoing)
    D = W.call(W.imp(UD, 'UDPDispatcher'), client(W, sent), settings, handler, None, xml)
    W.set(D, 'udp_serializer', ser)
    W.set(D, 'udp_deserializer', des)
    return D, sent

class Waiting(object):
    """what a circuit waits for, seen through one arbitrary number"""
    def __init__(self, W, c, tag=''):
        self.W = W; self.c = c
        self.k = seqno(W, 'any_number' + tag) if W.sym else W.int('any_number' + tag, 0, 45)
        self.was = W.true(W.haskey(c.waiting, self.k))
        self.value = W.item(c.waiting, self.k) if self.was else None
        # numbers that were not used yet are not waited for
        W.assume(W.no(W.haskey(c.waiting, c.out + 1)))
    def acks(self, acks):
        """acks: a spec list of the numbers that are acknowledged"""
        W = self.W
        was = self.was; k = self.k
        self.seen = W.fold(False, lambda st, i: W.any(st, W.eq(W.nth(acks, i), k)))
        W.map_invariant('acked', lambda has, n: W.eq(has(k), W.all(was, W.no(self.seen.at(n)))))
        self.gone = lambda: self.seen.at(W.len(W.arg(acks)))
    def check(self, name, added=None, gone=False):
        """added: (number, packet)"""
        W = self.W; c = self.c
        now = W.get(c.obj, 'unacked_packets')
        want = W.all(self.was, W.no(gone))
        if added is not None:
            want = W.any(want, W.eq(self.k, added[0]))
            W.check(name + ': the new packet', W.same_obj(W.item(now, added[0]), added[1]))
        W.check(name + ': which numbers', W.eq(W.haskey(now, self.k), want))
        if W.true(W.haskey(now, self.k)) and not (added is not None and W.true(W.eq(self.k, added[0]))):
            W.check(name + ': packets kept', W.same_obj(W.item(now, self.k), self.value))
        W.check(name + ': count', W.eq(W.get(c.obj, 'unack_packet_count'), W.len(now)))

def skipped(W):
    """a datagram nobody is interested in: header, whatever, and acks if the flag is set"""
    if W.sym:
        buf = W.bytes('datagram', lo=6)
    else:
        flags = W.int('flags', 0, 255)
        buf = W.cat(W.byte(flags), W.uint(seqno(W, 'id'), 4, True), W.bytes('rest', lo=1))
        if flags & ACK:
            l = W.seq('ack', lambda i: W.int('a', 0, 45), 0, 255)
            buf = W.cat(buf, W.join(l, lambda a: W.uint(a, 4, True)), W.byte(len(l)))
    flags = W.at(buf, 0)
    pid = W.toint(W.sub(buf, 1, 5), 4, True)
    acks = W.lcat(W.lst([]))
    if W.true(W.eq(W.mod(W.div(flags, 16), 2), 1)):
        end = W.blen(buf) - 1
        n = W.at(buf, end)
        W.assume(end - 4 * n >= 6)
        acks = W.upto(n, lambda i: W.toint(W.sub(buf, end - 4 * n + 4 * i, end - 4 * n + 4 * i + 4), 4, True))
    return buf, flags, pid, acks

def peers(W, D):
    """an arbitrary table of circuits; each has the host it is filed under"""
    def val(k):
        h = W.call(W.imp(CI, 'Host'), k)
        return Circ(W, h, ' of table').obj
    t = W.mapping('circuits', lambda i: (W.name('kip'), W.int('kport', 1, 4)), val, sized=False, objects=True)
    W.set(W.get(D, 'circuit_manager'), 'circuit_map', t)
    return t

class Other(object):
    """an arbitrary circuit of the table other than that of the given peer"""
    def __init__(self, W, table, ip, port):
        self.W = W; self.table = table
        self.ip = W.name('other_ip'); self.port = W.int('other_port', 1, 4 if not W.sym else 65535)
        W.assume(W.any(W.no(W.eq(ip, self.ip)), W.no(W.eq(port, self.port))))
        self.there = W.true(W.haskey(table, (self.ip, self.port)))
        if self.there:
            self.c = W.item(table, (self.ip, self.port))
            self.snap = W.snapshot(self.c)
    def check(self, cm):
        W = self.W
        t = W.get(cm, 'circuit_map')
        W.check('another peer has a circuit iff it had one', W.eq(W.haskey(t, (self.ip, self.port)), self.there))
        if self.there:
            W.check('the circuit of another peer is the same', W.same_obj(W.item(t, (self.ip, self.port)), self.c))
            W.unchanged('the circuit of another peer is untouched', self.snap)
