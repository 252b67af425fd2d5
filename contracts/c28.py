from vc import unit
from xnet import *
NET = B + 'network.net'
NC = NET + '.NetUDPClient.'

@unit('C28', 'Sending a datagram', funs=[NC + 'send_packet'])
def send(W):
    out = W.log()
    c = W.call(W.imp(NET, 'NetUDPClient'))
    h, ip, port = host(W)
    data = W.bytes('data')
    what = W.choice('what', ['some', 'none', 'fails'])
    def sendto(d, a):
        if what == 'fails': W.throw('IOError', b'no route')
        W.note(out, d, a)
        return W.blen(d)
    o = W.tryto(c, 'send_packet', W.stub(sendto=W.fn(sendto)), None if what == 'none' else data, h)
    W.check('an error iff there is nothing to send or the socket fails', W.eq(o.ok, what == 'some'))
    W.same('one datagram, to the host', out, W.lst([(data, (ip, port))] if what == 'some' else []))

@unit('C28', 'Receiving a datagram', funs=[NC + 'receive_packet', NC + 'get_sender', NC + '__init__'])
def receive(W):
    c = W.call(W.imp(NET, 'NetUDPClient'))
    W.check('no sender yet', W.all(W.is_none(W.get(c, 'sender.ip')), W.is_none(W.get(c, 'sender.port'))))
    asked = W.log()
    inbox = []
    for n in range(3):
        bad = W.bool('fails%d' % n)
        inbox.append((bad, W.bytes('data%d' % n, hi=10000), (W.name('ip%d' % n), W.int('port%d' % n, 0, 65535))))
    at = [0]
    def recvfrom(n):
        W.note(asked, True)
        bad, d, a = inbox[at[0]]; at[0] += 1
        if bad: W.throw(W.choice('error', ['IOError', 'ValueError', 'RuntimeError']), b'timed out')
        if not W.true(W.blen(d) <= n): d = W.sub(d, 0, n)       # what the socket does with the rest
        return d, a
    sock = W.stub(recvfrom=W.fn(recvfrom))
    senders = []
    now = None
    for bad, d, a in inbox:
        o = W.tryto(c, 'receive_packet', sock)
        W.check('no error', o.ok)
        if bad:
            W.check('an error gives an empty datagram', W.all(W.eq(W.item(o.value, 0), b''), W.eq(W.item(o.value, 1), 0)))
        else:
            W.check('all of it', W.eq(W.blen(W.item(o.value, 0)), W.blen(d)))
            W.check('the datagram', W.eq(W.item(o.value, 0), d))
            W.check('its size', W.eq(W.item(o.value, 1), W.blen(d)))
            now = a
            senders.append((W.do(c, 'get_sender'), a))
        s = W.do(c, 'get_sender')
        if now is None: W.check('no sender', W.all(W.is_none(W.get(s, 'ip')), W.is_none(W.get(s, 'port'))))
        else: W.check('the sender of the last datagram', W.all(W.eq(W.get(s, 'ip'), now[0]), W.eq(W.get(s, 'port'), now[1])))
        for h, a in senders:
            W.check('hosts of earlier senders stay', W.all(W.eq(W.get(h, 'ip'), a[0]), W.eq(W.get(h, 'port'), a[1])))
    W.same('one call of the socket each', asked, W.lst([True, True, True]))

@unit('C28', 'Valid hosts', funs=[CI + '.Host.__init__', CI + '.Host.is_ok'])
def hosts(W):
    ip = W.choice('ip', [None, 0, 'name']); port = W.choice('port', [None, 0, 'number'])
    a = W.name('ip') if ip else ip
    b = W.int('port', 1, 65535) if port else port
    h = W.call(W.imp(CI, 'Host'), (a, b))
    W.check('valid iff it has an address and a port', W.eq(W.true(W.do(h, 'is_ok')), bool(ip and port)))
    W.check('its address', W.is_none(W.get(h, 'ip')) if ip is None else W.eq(W.get(h, 'ip'), a))
    W.check('its port', W.is_none(W.get(h, 'port')) if port is None else W.eq(W.get(h, 'port'), b))

@unit('C28', 'The dispatcher sends one datagram per message and counts it', funs=[UD + '.UDPDispatcher.send_message', UD + '.UDPDispatcher.send_reliable'])
def dispatch(W):
    case = W.choice('case', ['fine', 'no address', 'no port', 'unserializable', 'no bytes', 'socket fails'])
    data = W.bytes('serialized', lo=7)
    def ser(p):
        if case == 'unserializable': W.throw(W.choice('error', ['KeyError', 'Exception', 'AssertionError', 'TypeError']), b'no')
        return None if case == 'no bytes' else data
    D, sent = dispatcher(W, W.stub(serialize=W.fn(ser)), outgoing=W.bool('handle outgoing'))
    out = W.log()
    def sendto(d, a):
        if case == 'socket fails': W.throw('IOError', b'no')
        W.note(out, d, a)
    W.set(D, 'udp_client', W.call(W.imp(NET, 'NetUDPClient')))
    W.set(D, 'socket', W.stub(sendto=W.fn(sendto)))
    t = peers(W, D)
    n = W.int('sent before', 0); W.set(D, 'packets_out', n)
    ip, port = W.name('ip'), W.int('port', 1, 65535)
    h = W.call(W.imp(CI, 'Host'), (None if case == 'no address' else ip, None if case == 'no port' else port))
    m, name = message(W)
    how = W.choice('how', ['plain', 'reliable'])
    if how == 'plain': o = W.tryto(D, 'send_message', m, h)
    else: o = W.tryto(D, 'send_reliable', m, h, W.int('retries', 0, 9))
    W.check('raises nothing', o.ok)
    ok = case == 'fine'
    W.same('one datagram to the host, or none', out, W.lst([(data, (ip, port))] if ok else []))
    W.check('counted iff sent', W.eq(W.get(D, 'packets_out'), n + 1 if ok else n))
    if o.ok: W.check('its bytes are given back iff it was sent', W.eq(o.value, data) if ok else W.is_none(o.value))

@unit('C28', 'Every datagram received is counted', funs=[UD + '.UDPDispatcher.receive_check'])
def counts(W):
    case = W.choice('case', ['decoded', 'skipped', 'error', 'empty'])
    m, pid, rel, acks = incoming(W)
    def des(b):
        if case == 'error': W.raise_(W.call(W.imp(B + 'exc', 'MessageDeserializationError'), b'x', b'y'))
        return m if case == 'decoded' else None
    D, sent = dispatcher(W, None, W.stub(deserialize=W.fn(des)))
    n = W.int('received before', 0); W.set(D, 'packets_in', n)
    k = W.int('sent before', 0); W.set(D, 'packets_out', k)
    h, ip, port = host(W)
    if case == 'empty': o = W.tryto(D, 'receive_check', h, b'', 0)
    else:
        buf = skipped(W)[0] if case == 'skipped' else W.bytes('datagram', lo=1)
        o = W.tryto(D, 'receive_check', h, buf, W.blen(buf))
    W.check('a decoding error is passed on', W.eq(o.ok, case != 'error'))
    W.check('counted iff not empty', W.eq(W.get(D, 'packets_in'), n if case == 'empty' else n + 1))
    W.check('not as sent', W.eq(W.get(D, 'packets_out'), k))
    W.same('nothing is sent', sent, W.lst([]))

import xtpl, xdec
@unit('C28', 'Messages that fit no template are not sent', funs=[UD + '.UDPDispatcher.send_message', UD + '.UDPDispatcher.send_reliable'], mode='conc', runs=200,
      bounded='drawn templates and messages with one mistake, sequences of up to 5')
def unfit(W):
    msgs = xtpl.draw(W)
    D, unused = dispatcher(W, xdec.encoder(W, xtpl.text(W, msgs)))
    sent = []
    D.udp_client = W.call(W.imp(NET, 'NetUDPClient'))
    D.socket = W.stub(sendto=lambda d, a: sent.append((d + '', a)))
    h, ip, port = host(W)
    n = 0
    for k in range(W.int('sends', 1, 5)):
        t = ' %d' % k
        m = W.choice('which' + t, msgs)
        x = xtpl.Sent(W, m, t)
        y = x.message
        what = W.choice('mistake' + t, ['none', 'name', 'block', 'field', 'value'])
        if what == 'name': y.name = W.choice('wrong name' + t, [b'NoSuchMessage', u'\xe9', b'\xff'])
        elif what == 'block':
            if not y.blocks: continue
            del y.blocks[W.choice('dropped' + t, sorted(y.blocks))]
        elif what in ('field', 'value'):
            bs = [b for b in m.blocks if b.fields and y.blocks[b.name]]
            if not bs: continue
            b = W.choice('block' + t, bs); r = W.choice('of' + t, y.blocks[b.name])
            f = W.choice('field' + t, b.fields)
            if what == 'field': del r.vars[f.name]; r.var_list.remove(f.name)
            elif f.type in ('MVT_VARIABLE', 'MVT_FIXED', 'MVT_IP_ADDR'): continue
            else: r.vars[f.name].data = W.choice('unfit' + t, [u'caf\xe9', object()])
        o = W.attempt(W.choice('how' + t, [D.send_message, lambda y, h: D.send_reliable(y, h, 3)]), y, h)
        W.check('nothing is raised', o.ok, repr(o.exc))
        if what == 'none': n += 1
        else: W.check('nothing is returned', o.value is None, repr(o.value))
        W.check('datagrams', len(sent) == n, repr(what))
        W.check('counted', D.packets_out == n)

import xhist
xhist.register('C28')
