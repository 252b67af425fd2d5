# random histories of the real dispatcher against a reference: concrete evidence beside the proofs
from xnet import *
import struct
MSG = B + 'message.message'

def sizes(body, pos, fmt): return struct.unpack('<' + fmt, body[pos:])

# name -> (number on the wire, draws the blocks and the body)
def ping(W, t):
    a = W.int('a' + t, 0, 255); b = W.int('b' + t, 0, 2 ** 32 - 1)
    return [('PingID', [dict(PingID=a, OldestUnacked=b)])], struct.pack('<BI', a, b)
def pong(W, t):
    a = W.int('a' + t, 0, 255)
    return [('PingID', [dict(PingID=a)])], chr(a)
def test(W, t):
    v = [W.int('v%d%s' % (i, t), 0, 2 ** 32 - 1) for i in range(13)]
    return ([('TestBlock1', [dict(Test1=v[0])]), ('NeighborBlock', [dict(Test0=v[1 + 3 * i], Test1=v[2 + 3 * i], Test2=v[3 + 3 * i]) for i in range(4)])],
            struct.pack('<13I', *v))
def acks(W, t):
    l = [W.int('id%d%s' % (i, t), 1, 40) for i in range(W.int('n' + t, 0, 3))]
    return [('Packets', [dict(ID=i) for i in l])], chr(len(l)) + struct.pack('<%dI' % len(l), *l)
def enable(W, t):
    h = W.int('h' + t, 0, 2 ** 64 - 1)
    return [('SimulatorInfo', [dict(Handle=h, IP=b'\x0a\x00\x00\x01', Port=13000)])], struct.pack('<Q', h) + b'\x0a\x00\x00\x01' + struct.pack('>H', 13000)
KINDS = {'StartPingCheck': (b'\x01', ping), 'CompletePingCheck': (b'\x02', pong), 'TestMessage': (b'\xff\xff\x00\x01', test),
         'PacketAck': (b'\xff\xff\xff\xfb', acks), 'EnableSimulator': (b'\xff\xff\x00\x97', enable)}
BARRED = ('EnableSimulator',)
ORDER = sorted(KINDS)

def zero_code(s):
    out = ''; i = 0
    while i < len(s):
        if s[i] == '\0':
            n = 1
            while i + n < len(s) and s[i + n] == '\0' and n < 255: n += 1
            out += '\0' + chr(n); i += n
        else:
            out += s[i]; i += 1
    return out

_cache = {}
def history(W, prop, runs=25):
    TD = W.imp(B + 'message.template_dict', 'TemplateDictionary')
    XM = W.imp(B + 'message.message_dot_xml', 'MessageDotXML')
    if 'td' not in _cache: _cache['td'] = TD(); _cache['xml'] = XM()
    for m in ('udpserializer', 'udpdeserializer'):
        W.patch(B + 'message.' + m, 'TemplateDictionary', lambda *a, **k: _cache['td'])
    wire = []
    cl = W.call(W.imp(B + 'network.net', 'NetUDPClient'))
    cl.start_udp_connection = lambda: W.stub(sendto=lambda data, a: wire.append((data,) + tuple(a)))
    S = W.call(W.imp(B + 'settings', 'Settings'), True)
    if W.bool('parse all'): S.ENABLE_DEFERRED_PACKET_PARSING = False
    H = W.call(W.imp(B + 'message.message_handler', 'MessageHandler'), S)
    D = W.call(W.imp(UD, 'UDPDispatcher'), cl, S, H, None, _cache['xml'])
    Host = W.imp(CI, 'Host'); Message = W.imp(MSG, 'Message'); Block = W.imp(MSG, 'Block')
    def chk(p, name, cond, detail=''):
        if p == prop: W.check(name, cond, detail)
    PEERS = [('10.0.0.1', 1), ('10.0.0.1', 2), ('10.0.0.2', 1)]
    got = []
    count = {}; ins = outs = 0
    handlers = {}
    old = []
    def state():
        r = {}
        for k, c in D.circuit_manager.circuit_map.items():
            r[k] = (c, c.last_packet_out_id, list(c.acks), dict(c.unacked_packets), c.unack_packet_count, (c.host.ip, c.host.port))
        return r
    def wired(n, name, body, datagram, before, to, reliable):
        """one datagram for a message that was sent"""
        data, ip, port = datagram
        chk('C28', '%s: destination' % n, (ip, port) == to)
        chk('C15', '%s: destination' % n, (ip, port) == to)
        owed = before[to][2] if to in before else []
        flags = ord(data[0])
        pid = struct.unpack('>I', data[1:5])[0]
        was = before[to][1] if to in before else 0
        chk('C10', '%s: sequence number on the wire' % n, pid == was + 1, '%r %r' % (pid, was))
        chk('C11', '%s: reliable flag' % n, bool(flags & RELIABLE) == reliable)
        want = owed[:255] if name != 'PacketAck' else []
        chk('C14', '%s: ack flag' % n, bool(flags & ACK) == bool(want), '%r owed %r' % (flags, owed))
        trailer = ''.join([struct.pack('>I', a) for a in want]) + chr(len(want)) if want else ''
        rest = data[6:]
        num = KINDS[name][0]
        if body is not None:
            chk('C14', '%s: appended acks' % n, rest.endswith(trailer) and len(rest) == len(num) + len(body) + len(trailer), repr(data))
            chk('C03', '%s: layout' % n, rest == num + body + trailer and data[5] == '\0', repr((data, num, body, trailer)))
        return pid
    for n in range(W.int('steps', 1, 24)):
        t = ' %d' % n
        op = W.choice('op' + t, ['send', 'send', 'reliable', 'reliable', 'receive', 'receive', 'receive', 'flush', 'remove', 'register', 'again', 'bad host', 'junk', 'owed', 'unserializable'])
        peer = W.choice('peer' + t, PEERS)
        before = state()
        del wire[:]
        del got[:]
        touched = [peer]
        if op in ('send', 'reliable', 'again', 'unserializable'):
            kind = W.choice('kind' + t, ORDER)
            blocks, body = KINDS[kind][1](W, t)
            m = Message(kind, *[[Block(b, **f) for f in l] if len(l) != 1 else Block(b, **l[0]) for b, l in blocks])
            if not blocks[0][1]: m = Message(kind, Block('Packets', ID=7)); body = b'\x01\x07\0\0\0'
            if op == 'unserializable': m = Message('StartPingCheck'); kind = 'StartPingCheck'
            if op == 'again' and old: m, kind, body = W.choice('which' + t, old)
            rel = op == 'reliable' or (op == 'again' and W.bool('rel' + t))
            r = D.send_reliable(m, Host(peer), 3) if rel else D.send_message(m, Host(peer))
            if op == 'unserializable' or kind in BARRED:
                chk('C28', '%s: nothing is sent' % n, wire == [] and r is None)
                if kind in BARRED: chk('C16', '%s: barred message on the wire' % n, wire == [])
                chk('C10', '%s: uses a number up' % n, D.find_circuit(Host(peer)).last_packet_out_id == (before[peer][1] if peer in before else 0) + 1)
            else:
                old.append((m, kind, body))
                chk('C28', '%s: one datagram' % n, len(wire) == 1 and r == wire[0][0])
                chk('C16', '%s: one datagram' % n, len(wire) == 1)
                chk('C13', '%s: one datagram' % n, len(wire) == 1)
                outs += 1
                if len(wire) == 1:
                    wired(n, kind, body, wire[0], before, peer, rel)
            after = state()
            c = after[peer]
            wait = dict(before[peer][3]) if peer in before else {}
            num = before[peer][4] if peer in before else 0
            if rel: wait[c[1]] = m; num = len(wait)
            chk('C11', '%s: outstanding' % n, sorted(wait) == sorted(c[3]) and c[4] == num, '%r %r %r' % (sorted(wait), sorted(c[3]), c[4]))
            chk('C12', '%s: sending leaves what is owed' % n, c[2] == (before[peer][2] if peer in before else []))
        elif op == 'bad host':
            r = D.send_message(Message('CompletePingCheck', Block('PingID', PingID=1)), Host(W.choice('bad' + t, [(None, 1), ('10.0.0.1', None), (None, None)])))
            chk('C28', '%s: nothing is sent to it' % n, wire == [] and r is None)
            touched = []
        elif op in ('receive', 'junk'):
            kind = W.choice('kind' + t, ORDER)
            blocks, body = KINDS[kind][1](W, t)
            rel = W.bool('rel' + t); zc = W.bool('zc' + t)
            al = [W.int('ack%d%s' % (i, t), 0, 12) for i in range(W.int('acks' + t, 0, 3))] if W.bool('acked' + t) else None
            pid = W.int('pid' + t, 0, 2 ** 32 - 1)
            flags = (rel and RELIABLE) | (zc and ZERO) | (al is not None and ACK) | (W.bool('resent' + t) and RESENT)
            pay = KINDS[kind][0] + body
            if zc: pay = zero_code(pay)
            data = chr(flags) + struct.pack('>I', pid) + '\0' + pay
            if al is not None: data += ''.join([struct.pack('>I', a) for a in al]) + chr(len(al))
            reg = kind in H.handlers
            if op == 'junk':
                data = W.choice('junk' + t, ['', data[:3], data[:6], chr(flags & ~ZERO & ~ACK) + data[1:6] + b'\xff\xff\xfe\x01' + 'abc', chr(ACK) + '\0\0\0\1\0' + chr(200)])
            interesting = op == 'receive' and kind not in BARRED and (reg or not S.ENABLE_DEFERRED_PACKET_PARSING)
            # a message whose only blocks are repeated no times is reported as empty
            empty = interesting and not [b for b, l in blocks if l]
            if empty: interesting = False
            o = W.attempt(D.receive_check, Host(peer), data, len(data))
            if data: ins += 1
            else: touched = []
            after = state()
            if op == 'junk':
                chk('C06', '%s: error or nothing' % n, (o.ok and o.value is None) or 'MessageDeserializationError' in o.names, repr((o.names, data)))
                chk('C18', '%s: nothing is delivered' % n, got == [])
                if not o.ok and peer in before:
                    chk('C12', '%s: a failure leaves what is owed' % n, after[peer][2] == before[peer][2])
            else:
                if empty:
                    for p in ('C04', 'C06'): chk(p, '%s: an empty message is an error' % n, 'MessageDeserializationError' in o.names, repr((o.ok, o.names, data)))
                else:
                  for p in ('C04', 'C06', 'C18', 'C16'):
                    chk(p, '%s: decoded iff of interest' % n, o.ok and (o.value is not None) == interesting, repr((o.ok, o.names, kind, data)))
                if o.ok and o.value is not None:
                    v = o.value
                    chk('C04', '%s: header' % n, v.name == kind and v.packet_id == pid and v.reliable == rel and v.send_flags == flags)
                    chk('C14', '%s: acks' % n, v.acks == (al or []))
                    chk('C04', '%s: blocks' % n, sorted(v.blocks) == sorted([b for b, l in blocks if l]))
                    for b, l in blocks:
                        have = v.blocks.get(b, []) if l else []
                        chk('C04', '%s: repetitions' % n, len(have) == len(l))
                        for x, f in zip(have, l):
                            chk('C04', '%s: fields' % n, sorted(x.vars) == sorted(f) and all([x.get_variable(q).data == f[q] for q in f]), repr((b, f, [(q, x.get_variable(q).data) for q in x.vars])))
                want = [(kind, i) for i in handlers.get(kind, [])] if interesting else []
                for p in ('C18', 'C16'): chk(p, '%s: delivered' % n, got == want, repr((got, want)))
                if o.ok:
                    owed = (before[peer][2] if peer in before else []) + ([pid] if rel else [])
                    chk('C12', '%s: acks owed' % n, after[peer][2] == owed, repr((after[peer][2], owed)))
                    wait = dict(before[peer][3]) if peer in before else {}
                    for a in al or []: wait.pop(a, None)
                    chk('C11', '%s: outstanding' % n, sorted(wait) == sorted(after[peer][3]) and after[peer][4] == len(wait), repr((al, sorted(wait), sorted(after[peer][3]), after[peer][4])))
            if peer in before: chk('C10', '%s: receiving uses no numbers' % n, after[peer][1] == before[peer][1])
            chk('C13', '%s: receiving sends nothing' % n, wire == [])
        elif op == 'flush':
            if W.bool('many' + t) and peer in before:
                k = W.choice('k' + t, [1, 250, 251, 252, 255, 256, 502, 600])
                for i in range(k): D.circuit_manager.circuit_map[peer].collect_ack(1000 * n + i)
                before = state()
            D.process_acks()
            touched = PEERS
            after = state()
            sent = {}
            for data, ip, port in wire:
                body = data[10:]
                chk('C13', '%s: an ack message' % n, data[6:10] == KINDS['PacketAck'][0] and not ord(data[0]) & (ZERO | ACK | RELIABLE))
                c = ord(body[0])
                chk('C13', '%s: 1 to 255 acks' % n, 1 <= c and len(body) == 1 + 4 * c)
                sent.setdefault((ip, port), []).extend(struct.unpack('<%dI' % c, body[1:1 + 4 * c]))
                outs += 1
            for k in before:
                chk('C13', '%s: every owed number once, in order' % n, sent.get(k, []) == before[k][2], repr((sent.get(k), before[k][2])))
                chk('C13', '%s: nothing is owed' % n, after[k][2] == [])
            chk('C13', '%s: no others' % n, not [k for k in sent if k not in before])
        elif op == 'owed':
            chk('C13', '%s: owed acks are reported' % n, bool(D.has_unacked()) == bool([k for k in before if before[k][2]]))
            touched = []
        elif op == 'remove':
            D.circuit_manager.remove_circuit_data(Host(peer))
            chk('C15', '%s: removed' % n, D.circuit_manager.get_circuit(Host(peer)) is None)
        else:
            kind = W.choice('kind' + t, ORDER)
            i = n
            def sub(m, i=i): got.append((m.name, i))
            H.register(kind).subscribe(sub)
            handlers.setdefault(kind, []).append(i)
            touched = []
        after = state()
        for k in set(list(before) + list(after)):
            if k not in touched:
                same = k in before and k in after and before[k][0] is after[k][0] and before[k][1:] == after[k][1:]
                for p in ('C15', 'C10', 'C12'): chk(p, '%s: the circuit of another peer' % n, same)
            elif k in after:
                chk('C15', '%s: the destination' % n, after[k][5] == k)
                if k in before and op != 'remove': chk('C15', '%s: the same circuit' % n, after[k][0] is before[k][0])
                chk('C15', '%s: found again' % n, D.circuit_manager.get_circuit(Host(k)) is after[k][0])
        chk('C28', '%s: counts' % n, D.packets_in == ins and D.packets_out == outs, repr((D.packets_in, ins, D.packets_out, outs)))

def register(prop, runs=400):
    @unit(prop, 'Histories of the real dispatcher agree with the reference', mode='conc', runs=runs,
          bounded='random histories of up to 24 operations on 3 peers, five kinds of messages', funs=[UD + '.UDPDispatcher'])
    def hist(W): history(W, prop)
