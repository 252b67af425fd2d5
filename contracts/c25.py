from vc import unit
from xnet import *
MM = B + 'message_manager'
M = MM + '.MessageManager.'

class Man(object):
    """a message manager with stand-ins for its dispatcher and event queue, and an arbitrary outgoing queue"""
    def __init__(self, W, stop_after=1, eq=True, during=None, owed=None, bad=None):
        self.W = W
        self.bad = bad
        self.sent = W.log(); self.trace = W.log()
        turns = [0]
        self.during = during
        def sleep(*a):
            turns[0] += 1
            if turns[0] >= stop_after: W.set(self.man, '_is_running', False)
        W.patch(B + 'message_manager', 'api', W.stub(sleep=W.fn(sleep), spawn=W.fn(lambda f, *a, **k: W.note(self.trace, b'spawn', f))))
        def send_message(p, h):
            W.note(self.sent, p, h, False)
            if self.during: self.during(p)
            return b'plain'
        def send_reliable(p, h, retries):
            W.note(self.sent, p, h, True)
            if self.during: self.during(p)
            return b'reliable'
        self.sender = W.stub()
        self.owed = W.bool('owed') if owed is None else owed
        client = W.stub(receive_packet=W.fn(lambda s: (b'data', 4)), get_sender=W.fn(lambda: self.sender))
        def check(h, b, n):
            W.check('the datagram is handed on with its sender', W.all(W.same_obj(h, self.sender), W.eq(b, b'data'), W.eq(n, 4)))
            W.note(self.trace, b'receive')
            if self.bad and self.bad(): W.raise_(W.call(W.imp(B + 'exc', 'MessageDeserializationError'), b'datagram', b'malformed'))
        disp = W.stub(udp_client=client, socket=W.stub(), receive_check=W.fn(check), has_unacked=W.fn(lambda: self.owed), process_acks=W.fn(lambda: W.note(self.trace, b'acks')),
                      send_message=W.fn(send_message), send_reliable=W.fn(send_reliable))
        W.patch(MM, 'UDPDispatcher', W.fn(lambda *a, **k: disp))
        W.patch(MM, 'MessageDotXML', W.fn(lambda *a, **k: W.stub()))
        self.stopped = W.log()
        caps = W.pairs([])
        self.eq_running = W.bool('event queue runs')
        if eq:
            q = W.stub(start=W.fn(lambda: None), stop=W.fn(lambda: W.note(self.stopped, 1)), _running=self.eq_running)
            W.patch(MM, 'EventQueueClient', W.fn(lambda cap, **k: q))
            caps = W.pairs([(b'EventQueueGet', W.stub())])
            self.eq = q
        h, ip, port = host(W)
        self.host = h
        settings = W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet'))
        W.set(settings, 'ENABLE_REGION_EVENT_QUEUE', W.bool('event queue enabled'))
        self.settings = settings
        self.man = W.call(W.imp(MM, 'MessageManager'), h, W.stub(), caps, settings)
    def queue(self):
        W = self.W
        q = W.list('queue', lambda i: (W.opaque('queued'), W.bool('queued reliably')))
        W.set(self.man, 'outgoing_queue', q)
        return W.lcat(q)
    def sends(self, l):
        return self.W.map(l, lambda x: (x[0], self.host, x[1]))

@unit('C25', 'Queueing a message', funs=[M + 'enqueue_message', M + '__init__'])
def enqueue(W):
    S = Man(W)
    q = S.queue()
    m = W.opaque('message')
    how = W.choice('how', ['plain', 'reliable', 'urgent', 'both'])
    rel = how in ('reliable', 'both')
    if how == 'plain': W.do(S.man, 'enqueue_message', m)
    elif how == 'reliable': W.do(S.man, 'enqueue_message', m, True)
    elif how == 'urgent': W.do(S.man, 'enqueue_message', m, now=True)
    else: W.do(S.man, 'enqueue_message', m, reliable=True, now=True)
    got = W.get(S.man, 'outgoing_queue')
    if how in ('plain', 'reliable'): W.same('at the end', got, W.lcat(q, [(m, rel)]))
    else: W.same('in front', got, W.lcat([(m, rel)], q))
    W.same('nothing is sent', S.sent, W.lst([]))

@unit('C25', 'A turn of the loop sends the whole queue once, in order', funs=[M + '_udp_dispatcher', M + 'send_udp_message'])
def loop(W):
    S = Man(W)
    q = S.queue()
    W.set(S.man, '_is_running', True)
    W.do(S.man, '_udp_dispatcher')
    W.same('each is sent once, to the host of the manager, as queued', S.sent, S.sends(q))
    W.check('the queue is empty', W.eq(W.len(W.get(S.man, 'outgoing_queue')), 0))
    W.same('one datagram is received, and acks are sent if any are owed', S.trace, W.lst([b'receive', b'acks'] if W.true(S.owed) else [b'receive']))

@unit('C25', 'Queueing and running, several turns', funs=[M + '_udp_dispatcher', M + 'enqueue_message', M + 'start_monitors'], runs=400)
def history(W):
    S = Man(W)
    model = []; want = []
    for n in range(4):
        op = W.choice('op%d' % n, ['end', 'front', 'run'])
        if op == 'run':
            W.set(S.man, '_is_running', True)
            W.do(S.man, '_udp_dispatcher')
            want += model
            model = []
        else:
            m = W.opaque('m%d' % n); r = W.bool('r%d' % n)
            W.do(S.man, 'enqueue_message', m, r, op == 'front')
            model = model + [(m, r)] if op == 'end' else [(m, r)] + model
        W.same('%d: sent so far' % n, S.sent, W.lst([(a, S.host, b) for a, b in want]))
        W.same('%d: still queued' % n, W.get(S.man, 'outgoing_queue'), W.lst(model))

@unit('C25', 'Messages queued while the queue is sent', funs=[M + '_udp_dispatcher', M + 'enqueue_message'], runs=400)
def during(W):
    S = Man(W)
    items = [(W.opaque('first'), W.bool('rel first')), (W.opaque('second'), W.bool('rel second'))]
    new = W.opaque('new'); rel = W.bool('rel new'); front = W.bool('urgent')
    state = [0]
    def act(p):
        if state[0]: return
        state[0] = 1
        W.do(S.man, 'enqueue_message', new, rel, front)
    S.during = act
    W.set(S.man, 'outgoing_queue', W.lst(items))
    W.set(S.man, '_is_running', True)
    W.do(S.man, '_udp_dispatcher')
    order = [items[0], (new, rel), items[1]] if W.true(front) else items + [(new, rel)]
    W.same('all are sent once, urgent ones first', S.sent, W.lst([(a, S.host, b) for a, b in order]))
    W.check('the queue is empty', W.eq(W.len(W.get(S.man, 'outgoing_queue')), 0))

@unit('C25', 'The loop runs until it is stopped', funs=[M + '_udp_dispatcher'])
def turns(W):
    k = W.choice('turns', [1, 2, 3, 5])
    S = Man(W, k)
    W.set(S.man, 'outgoing_queue', W.lst([(b'a', True), (b'b', False)]))
    W.set(S.man, '_is_running', True)
    W.do(S.man, '_udp_dispatcher')
    W.same('sent once', S.sent, W.lst([(b'a', S.host, True), (b'b', S.host, False)]))
    one = [b'receive', b'acks'] if W.true(S.owed) else [b'receive']
    W.same('a datagram each turn', S.trace, W.lst(one * k))
    W.do(S.man, 'stop_monitors')
    W.do(S.man, '_udp_dispatcher')
    W.same('not after it was stopped', S.trace, W.lst(one * k))

@unit('C25', 'A datagram that cannot be decoded', funs=[M + '_udp_dispatcher'])
def malformed(W):
    k = W.choice('turns', [1, 2])
    which = [W.bool('malformed %d' % i) for i in range(k)]
    turn = [0]
    def bad():
        turn[0] += 1
        return W.true(which[turn[0] - 1])
    S = Man(W, k, bad=bad)
    q = S.queue()
    W.set(S.man, '_is_running', True)
    o = W.tryto(S.man, '_udp_dispatcher')
    W.check('it does not end the loop', o.ok, o.names)
    W.same('the queue is sent', S.sent, S.sends(q))
    W.same('and so is every turn taken', S.trace, W.lst(([b'receive', b'acks'] if W.true(S.owed) else [b'receive']) * k))

@unit('C25', 'Sending immediately', funs=[M + 'send_udp_message'])
def now(W):
    S = Man(W)
    q = S.queue()
    m = W.opaque('message')
    how = W.choice('how', ['default', 'reliable', 'plain'])
    if how == 'default': r = W.do(S.man, 'send_udp_message', m)
    else: r = W.do(S.man, 'send_udp_message', m, how == 'reliable')
    W.same('sent once, on the path asked for', S.sent, W.lst([(m, S.host, how == 'reliable')]))
    W.check('the bytes are given back', W.eq(r, b'reliable' if how == 'reliable' else b'plain'))
    W.same('the queue stays', W.get(S.man, 'outgoing_queue'), q)

@unit('C25', 'Starting and stopping', funs=[M + 'start_monitors', M + 'stop_monitors'])
def monitors(W):
    eq = W.bool('has event queue')
    if not eq: eq = False
    S = Man(W, eq=eq is not False)
    has = eq is not False
    started = W.bool('started')
    if started:
        W.do(S.man, 'start_monitors')
        W.check('runs', W.true(W.get(S.man, '_is_running')))
        n = 2 if has and W.true(W.get(S.settings, 'ENABLE_REGION_EVENT_QUEUE')) else 1
        W.check('the loop and, if enabled, the event queue are started', W.eq(W.len(S.trace), n))
    o = W.tryto(S.man, 'stop_monitors')
    W.check('stops without an error', o.ok)
    W.check('the loop stops', W.no(W.true(W.get(S.man, '_is_running'))))
    W.same('the event queue is stopped if it runs', S.stopped, W.lst([1] if has and W.true(S.eq_running) else []))
    o = W.tryto(S.man, 'stop_monitors')
    W.check('stopping again is no error', o.ok)
    W.same('no datagram was handled', W.lst([]), S.sent)
