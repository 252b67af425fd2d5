from vc import unit
from xnet import *
MH = B + 'message.message_handler'
H = MH + '.MessageHandler.'
N = MH + '.MessageHandledNotifier.'
DE = B + 'message.udpdeserializer'

class World(object):
    """a handler that knows an arbitrary set of names, each with an arbitrary list of subscribers"""
    def __init__(self, W, fails=None):
        self.W = W
        self.log = W.log()
        self.settings = W.call(W.imp(B + 'settings', 'Settings'), *W.choice('logging', [(True, False), (False, True), (False, False)]))
        self.handler = W.call(W.imp(MH, 'MessageHandler'), self.settings)
        cls = W.imp(MH, 'MessageHandledNotifier')
        def called(h, a, k): W.note(self.log, h, tuple(a))
        def notifier(k):
            n = W.call(cls, k, self.settings)
            l = W.list('subs', lambda i: (W.cb('handler', called), (W.int('extra'),) , W.pairs([])), 0, 4 if not W.sym else None)
            W.set(n, 'event.subscribers', l) if False else W.set(W.get(n, 'event'), 'subscribers', l)
            return n
        self.table = W.mapping('handlers', lambda i: W.name('hname'), notifier, sized=False, objects=True)
        W.set(self.handler, 'handlers', self.table)
    def message(self, tag=''):
        W = self.W
        name = W.name('mname' + tag)
        return W.call(W.imp(B + 'message.message', 'Message'), name), name
    def subs(self, name):
        """subscriptions of a name, or None"""
        W = self.W
        if not W.true(W.haskey(self.table, name)): return None
        return W.lcat(W.get(W.item(self.table, name), 'event.subscribers'))

@unit('C18', 'A message reaches exactly the subscribers of its name', funs=[H + 'handle', N + 'received', N + '__len__', H + 'is_message_handled'])
def handle(W):
    S = World(W)
    m, name = S.message()
    subs = S.subs(name)
    other = W.name('other name')
    W.assume(W.no(W.eq(name, other)))
    others = S.subs(other)
    r = W.do(S.handler, 'is_message_handled', name)
    W.check('handled iff registered', W.eq(W.true(r), subs is not None))
    W.check('the other name', W.eq(W.true(W.do(S.handler, 'is_message_handled', other)), others is not None))
    o = W.tryto(S.handler, 'handle', m)
    W.check('ends normally', o.ok)
    W.same('each once, in order, with the message', S.log, W.map(subs, lambda s: (s[0], (m,) + s[1])) if subs is not None else W.lst([]))
    W.check('the names registered stay', W.all(W.eq(W.haskey(W.get(S.handler, 'handlers'), name), subs is not None), W.eq(W.haskey(W.get(S.handler, 'handlers'), other), others is not None)))

@unit('C18', 'Messages of several names in a row', funs=[H + 'handle', H + 'register', N + 'subscribe', N + 'unsubscribe'], runs=400)
def row(W):
    log = W.log()
    settings = W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet'))
    h = W.call(W.imp(MH, 'MessageHandler'), settings)
    names = [W.name('n0'), W.name('n1')]
    W.assume(W.no(W.eq(names[0], names[1])))
    subs = [None, None]
    def called(h, a, k): W.note(log, h, tuple(a))
    for n in range(3):
        w = W.choice('who%d' % n, [0, 1])
        op = W.choice('op%d' % n, ['register', 'subscribe', 'unsubscribe'])
        r = W.do(h, 'register', names[w])
        if subs[w] is None: subs[w] = []
        if op == 'subscribe':
            s = (W.cb('cb%d' % n, called), W.int('extra%d' % n, 0, 2))
            W.do(r, 'subscribe', *s)
            subs[w].append(s)
        elif op == 'unsubscribe' and subs[w]:
            s = subs[w].pop(0)
            W.do(r, 'unsubscribe', *s)
        W.check('%d: subscribers' % n, W.eq(W.len(r), len(subs[w])))
        for k in (0, 1):
            W.check('%d: registered or not' % n, W.eq(W.true(W.do(h, 'is_message_handled', names[k])), subs[k] is not None))
    want = []
    for k in (0, 1, 0):
        m = W.call(W.imp(B + 'message.message', 'Message'), names[k])
        W.do(h, 'handle', m)
        want += [(s[0], (m, s[1])) for s in subs[k] or []]
    W.same('each message reaches the subscribers of its name', log, W.lst(want))

@unit('C18', 'Registering a name', funs=[H + 'register', N + '__init__'])
def register(W):
    S = World(W)
    name = W.name('name')
    subs = S.subs(name)
    old = W.item(S.table, name) if subs is not None else None
    other = W.name('other name')
    W.assume(W.no(W.eq(name, other)))
    others = S.subs(other)
    n = W.do(S.handler, 'register', name)
    if subs is not None:
        W.check('the same notifier', W.same_obj(n, old))
        W.same('its subscribers are kept', W.map(W.get(n, 'event.subscribers'), lambda s: (s[0], s[1])), W.map(subs, lambda s: (s[0], s[1])))
    else: W.check('no subscribers yet', W.eq(W.len(n), 0))
    W.check('registered', W.true(W.do(S.handler, 'is_message_handled', name)))
    W.check('the same notifier again', W.same_obj(W.do(S.handler, 'register', name), n))
    W.check('the other name', W.eq(W.haskey(W.get(S.handler, 'handlers'), other), others is not None))
    def called(h, a, k): W.note(S.log, h, tuple(a))
    new = W.cb('new handler', called)
    W.do(n, 'subscribe', new, 5)
    m = W.call(W.imp(B + 'message.message', 'Message'), name)
    W.do(S.handler, 'handle', m)
    W.same('a new subscriber is called after the others', S.log, W.lcat(W.map(subs, lambda s: (s[0], (m,) + s[1])) if subs is not None else W.lst([]), [(new, (m, 5))]))
    if others is not None:
        W.same('the subscribers of the other name', W.map(W.get(W.item(W.get(S.handler, 'handlers'), other), 'event.subscribers'), lambda s: (s[0], s[1])), W.map(others, lambda s: (s[0], s[1])))

@unit('C18', 'An exception of a subscriber reaches the caller', funs=[H + 'handle'])
def fails(W):
    S = World(W)
    m, name = S.message()
    n = W.do(S.handler, 'register', name)
    exc = W.new_exc(W.choice('exception', ['KeyError', 'ValueError', 'AttributeError', 'AssertionError', 'TypeError']), b'x')
    W.do(n, 'subscribe', W.cb('failing', lambda h, a, k: W.raise_(exc)))
    o = W.tryto(S.handler, 'handle', m)
    W.check('it is raised', W.no(o.ok))
    if not o.ok: W.check('the same exception', W.same_obj(o.exc, exc))

@unit('C18', 'Datagrams are parsed and delivered iff their name is registered or deferred parsing is off', funs=[DE + '.UDPMessageDeserializer.deserialize', DE + '.UDPMessageDeserializer.__init__'])
def datagrams(W):
    settings = W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet'))
    deferred = W.bool('deferred')
    W.set(settings, 'ENABLE_DEFERRED_PACKET_PARSING', deferred)
    asked = W.log()
    reg = W.bool('registered')
    name = W.name('name')
    handler = W.stub(is_message_handled=W.fn(lambda n: (W.note(asked, n), reg)[1]))
    t = W.call(W.imp(B + 'message.template', 'MessageTemplate'), name)
    W.set(t, 'frequency', 4); W.set(t, 'msg_num', 300)
    known = W.bool('known')
    td = W.stub(get_template_by_pair=W.fn(lambda f, n: t if known else None))
    W.patch(DE, 'TemplateDictionary', W.fn(lambda *a, **k: td))
    allowed = W.bool('allowed')
    xml = W.stub(validate_udp_msg=W.fn(lambda n: allowed))
    d = W.call(W.imp(DE, 'UDPMessageDeserializer'), handler, settings, message_xml=xml)
    buf = W.cat(W.byte(W.choice('flags', [0, RELIABLE])), W.bytes('pid', n=4), b'\x00\xff\xff\x01\x2c', W.bytes('rest'))
    o = W.tryto(d, 'deserialize', buf)
    W.check('ends normally', o.ok)
    if not o.ok: return
    wanted = W.all(known, allowed, W.any(reg, W.no(deferred)))
    W.check('a message iff wanted', W.eq(W.no(W.is_none(o.value)), wanted))
    if not W.true(W.is_none(o.value)): W.check('of that name', W.eq(W.get(o.value, 'name'), name))
    for n in ([] if W.sym else asked): W.check('asked for its name', n == name)

@unit('C18', 'The dispatcher delivers what was decoded, once', funs=[UD + '.UDPDispatcher.receive_check'])
def deliver(W):
    got = W.log()
    m, pid, rel, acks = incoming(W)
    none = W.bool('skipped')
    settings = W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet'))
    on = W.bool('handle packets')
    W.set(settings, 'HANDLE_PACKETS', on)
    D, sent = dispatcher(W, None, W.stub(deserialize=W.fn(lambda b: None if none else m)), W.stub(handle=W.fn(lambda x: W.note(got, x))), settings)
    h, ip, port = host(W)
    r = W.do(D, 'receive_check', h, b'\x00\x00\x00\x00\x01\x00\x01', 7)
    W.same('delivered once, or skipped', got, W.lst([]) if none or not on else W.lst([m]))
    W.check('given back', W.is_none(r) if none else W.same_obj(r, m))
    W.same('nothing is sent', sent, W.lst([]))

import xhist
xhist.register('C18')
