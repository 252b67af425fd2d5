from vc import unit
EV = 'pyogp.lib.base.events'
E = EV + '.Event.'

class Subs(object):
    """an event with an arbitrary list of subscriptions; handlers record how they are called"""
    def __init__(self, W, during=None, names=('none', 'one', 'two', 'keyword', 'both')):
        self.W = W
        self.log = W.log()
        self.shape = W.choice('arguments', list(names))
        def call(h, a, k):
            W.note(self.log, h, tuple(a), k['key'] if k else 0, len(k))
            if during is not None: return during(h, a, k)
        self.call = call
        self.list = W.list('subs', lambda i: self.make('s'))
        self.ev = W.call(W.imp(EV, 'Event'))
        W.set(self.ev, 'subscribers', self.list)
        self.before = W.lcat(self.list)
        self.n = W.len(self.list)
    def make(self, tag, h=None, shape=None):
        W = self.W
        shape = shape or self.shape
        if h is None: h = W.cb('handler ' + tag, self.call)
        a = ()
        if shape in ('one', 'both'): a = (W.int('a ' + tag),)
        if shape == 'two': a = (W.int('a ' + tag), W.opaque('b ' + tag))
        k = W.pairs([(b'key', W.int('k ' + tag, 0, 3 if not W.sym else None))] if shape in ('keyword', 'both') else [])
        return h, a, k
    def subscribe(self, how, tag, shape=None):
        """subscribes another handler; gives the subscription"""
        W = self.W
        s = self.make(tag, shape=shape)
        kw = {'key': W.item(s[2], b'key')} if W.len(s[2]) else {}
        return s, how(s[0], *s[1], **kw)
    def entry(self, fired, s):
        """the call of subscription s"""
        W = self.W
        return (s[0], (fired,) + s[1], W.item(s[2], b'key') if W.len(s[2]) else 0, W.len(s[2]))
    def calls(self, fired, l):
        return self.W.map(l, lambda s: self.entry(fired, s))
    def subs(self):
        return self.W.lcat(self.W.get(self.ev, 'subscribers'))
    def same_subs(self, name, want):
        """the subscriptions are these, in this order"""
        self.W.same(name, self.calls(0, self.subs()), self.calls(0, want))

def fire(W, S, how, x):
    if how == 'call': return W.attempt(S.ev, x)
    return W.tryto(S.ev, 'notify', x)

@unit('C17', 'Firing calls every subscription once, in order', funs=[E + 'notify'])
def notify(W):
    S = Subs(W)
    x = W.opaque('fired', False)
    o = fire(W, S, W.choice('how', ['call', 'notify']), x)
    W.check('fires', o.ok)
    W.same('the calls', S.log, S.calls(x, S.before))
    S.same_subs('the subscriptions stay', S.before)
    W.check('length', W.eq(W.len(S.ev), S.n))

@unit('C17', 'Subscribing while the event fires', funs=[E + 'notify', E + 'subscribe'])
def grow(W):
    S = None
    new = []
    def during(h, a, k):
        W.do(S.ev, 'subscribe', late, 7)
    late = W.cb('late handler', lambda h, a, k: W.note(S.log, h, tuple(a), 0, 0))
    S = Subs(W, during)
    x = W.opaque('fired', False)
    o = fire(W, S, 'call', x)
    W.check('fires', o.ok)
    W.same('only those subscribed when it fired are called', S.log, S.calls(x, S.before))
    W.check('length', W.eq(W.len(S.ev), 2 * S.n))

@unit('C17', 'Unsubscribing while the event fires', funs=[E + 'notify', E + 'unsubscribe'])
def shrink(W):
    S = None
    def during(h, a, k):
        # each handler removes the first subscription that is left
        W.do(W.get(S.ev, 'subscribers'), 'pop', 0)
    S = Subs(W, during)
    x = W.opaque('fired', False)
    o = fire(W, S, 'call', x)
    W.check('fires', o.ok)
    W.same('all subscribed when it fired are called', S.log, S.calls(x, S.before))
    W.check('length', W.eq(W.len(S.ev), 0))

@unit('C17', 'Handlers that clear the event, or fire it again', funs=[E + 'notify', E + 'clearSubscribers'])
def clear(W):
    S = None
    def during(h, a, k): W.do(S.ev, 'clearSubscribers')
    S = Subs(W, during, ('none', 'both'))
    x = W.opaque('fired', False)
    o = fire(W, S, 'call', x)
    W.check('fires', o.ok)
    W.same('all subscribed when it fired are called', S.log, S.calls(x, S.before))
    W.check('length', W.eq(W.len(S.ev), 0))

@unit('C17', 'An exception of a handler reaches the firer', funs=[E + 'notify'], runs=400)
def fails(W):
    kind = W.choice('exception', ['ValueError', 'KeyError', 'RuntimeError', 'AssertionError'])
    S = Subs(W, names=('none', 'both'))
    exc = W.new_exc(kind, b'x')
    def boom(h, a, k):
        W.note(S.log, h, tuple(a), k['key'] if k else 0, len(k))
        W.raise_(exc)
    bad = W.cb('failing handler', boom)
    i = W.int('where', 0)
    W.assume(i <= S.n)
    s, r = None, None
    sub = S.make('bad', h=bad)
    W.do(W.get(S.ev, 'subscribers'), 'insert', i, sub)
    x = W.opaque('fired', False)
    o = fire(W, S, 'call', x)
    W.check('it is raised', W.no(o.ok))
    if not o.ok:
        W.check('the same exception', W.same_obj(o.exc, exc))
        W.same('those before it were called', S.log, W.lcat(S.calls(x, W.lslice(S.before, 0, i)), [S.entry(x, sub)]))

@unit('C17', 'Subscribing adds one at the end', funs=[E + 'subscribe', E + 'getSubscriberCount', E + 'getSubscribers'])
def subscribe(W):
    S = Subs(W)
    s, r = S.subscribe(lambda *a, **k: W.do(S.ev, 'subscribe', *a, **k), 'new', shape=W.choice('new arguments', ['none', 'one', 'two', 'keyword', 'both']))
    W.check('gives the event', W.same_obj(r, S.ev))
    W.check('length', W.all(W.eq(W.len(S.ev), S.n + 1), W.eq(W.do(S.ev, 'getSubscriberCount'), S.n + 1)))
    S.same_subs('the earlier ones stay', S.before) if False else None
    W.same('the earlier ones stay', S.calls(0, W.lslice(S.subs(), 0, S.n)), S.calls(0, S.before))
    W.same('the new one', W.lcat([S.entry(0, W.nth(S.subs(), S.n))]), W.lcat([S.entry(0, s)]))

@unit('C17', 'Unsubscribing removes exactly one equal subscription', funs=[E + 'unsubscribe'], runs=500)
def unsubscribe(W):
    S = Subs(W)
    i = W.index('which', S.n)
    s = W.nth(S.before, i)
    # the first one that equals it
    how = W.do if not W.bool('by operator') or s[1] or W.len(s[2]) else None
    kw = {'key': W.item(s[2], b'key')} if W.len(s[2]) else {}
    if how is None: o = W.tryto(S.ev, '__isub__', s[0])
    else: o = W.tryto(S.ev, 'unsubscribe', s[0], *s[1], **kw)
    W.check('accepted', o.ok)
    W.check('gives the event', W.same_obj(o.value, S.ev) if o.ok else False)
    W.check('one less', W.eq(W.len(S.ev), S.n - 1))
    if o.ok:
        # what is left is what was there without one that equals it
        k = W.int('removed', 0, None) if W.sym else 0
        left = S.subs()
        j = W.index('position', S.n - 1)
        a = S.entry(0, W.nth(left, j)); b = S.entry(0, W.nth(S.before, j)); c = S.entry(0, W.nth(S.before, j + 1)); e = S.entry(0, s)
        W.check('the others stay in order', W.any(W.eq(a, b), W.eq(a, c)))
        if W.true(W.no(W.eq(a, b))):
            # j is at or behind the one that was removed
            m = W.index('later', S.n - 1)
            if W.true(m >= j):
                W.check('nothing else is lost', W.eq(S.entry(0, W.nth(left, m)), S.entry(0, W.nth(S.before, m + 1))))
        else:
            W.cover('before the removed one')

@unit('C17', 'Unsubscribing one subscription of three', funs=[E + 'unsubscribe'], runs=500)
def three(W):
    """which one is removed, case by case"""
    ev = W.call(W.imp(EV, 'Event'))
    log = W.log()
    subs = []
    for n in range(3):
        h = W.cb('h%d' % n, lambda h, a, k: W.note(log, h, tuple(a)))
        v = W.int('v%d' % n, 0, 1)
        W.do(ev, 'subscribe', h, v)
        subs.append((h, v))
    h = W.cb('h', lambda h, a, k: None)
    v = W.int('v', 0, 1)
    o = W.tryto(ev, 'unsubscribe', h, v)
    at = None
    for n in range(3):
        if at is None and W.true(W.all(W.eq(subs[n][0], h), W.eq(subs[n][1], v))): at = n
    if at is None:
        W.raises('nothing to remove', o, 'ValueError')
        left = subs
    else:
        W.check('removed', o.ok)
        left = subs[:at] + subs[at + 1:]
    W.check('length', W.eq(W.len(ev), len(left)))
    W.call(ev, 5)
    W.same('calls', log, W.lcat([(g, (5, w)) for g, w in left]))

@unit('C17', 'Unsubscribing what is not subscribed is a ValueError', funs=[E + 'unsubscribe'])
def unknown(W):
    S = Subs(W)
    h = W.cb('stranger', lambda h, a, k: None)
    what = W.choice('differs in', ['handler', 'more arguments', 'keyword'])
    if what == 'handler':
        if W.sym: W.assume(W.no(W.haskey(W.lst(W.map(S.before, lambda s: s[0])), h)))
        elif [s for s in S.before if s[0] == h]: W.assume(False)
        o = W.tryto(S.ev, 'unsubscribe', h)
    elif what == 'more arguments': o = W.tryto(S.ev, 'unsubscribe', h, 1, 2, 3)
    else: o = W.tryto(S.ev, 'unsubscribe', h, 1, other=2)
    W.raises('refused', o, 'ValueError')
    S.same_subs('nothing changes', S.before)

@unit('C17', 'Clearing leaves no subscription', funs=[E + 'clearSubscribers', E + '__init__'])
def cleared(W):
    S = Subs(W)
    other = W.call(W.imp(EV, 'Event'))
    W.check('a new event has none', W.eq(W.len(other), 0))
    r = W.do(S.ev, 'clearSubscribers')
    W.check('length', W.eq(W.len(S.ev), 0))
    W.do(S.ev, 'notify', 1)
    W.check('nobody is called', W.eq(W.len(S.log), 0))
    S.subscribe(lambda *a, **k: W.do(S.ev, 'subscribe', *a, **k), 'new')
    W.check('events share nothing', W.all(W.eq(W.len(other), 0), W.eq(W.len(S.ev), 1)))
