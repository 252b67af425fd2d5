from vc import unit
from xeq import *

def ack(W, last):
    """what a poll says"""
    return W.pairs([]) if W.true(W.eq(last, -1)) else W.pairs([(b'ack', last)])

KINDS = ['events', 'timeout', 'failure']
def response(W, kind, i, n=1):
    """(a function that answers, the id or None, the names of the events)"""
    if kind == 'timeout': return (lambda d: None), None, []
    if kind == 'failure': return (lambda d: W.throw('Exception', b'failed')), None, []
    if kind == 'malformed': return (lambda d: W.pairs([])), None, []
    ident = W.int('id%d' % i, 0)
    names = [W.name('event%d.%d' % (i, j)) for j in range(n)]
    ev = W.lst([W.pairs([(b'message', x), (b'body', W.pairs([(b'A', 1)]))]) for x in names])
    return (lambda d: W.pairs([(b'id', ident), (b'events', ev)])), ident, names

def play(W, kinds, last, stop_in, counts):
    rs = [response(W, k, i, c) for i, (k, c) in enumerate(zip(kinds, counts))]
    S = Queue(W, [r[0] for r in rs], last=last, stop_in=stop_in)
    S.run()
    posts = []; events = []
    now = last
    for k, (f, ident, names) in zip(kinds, rs):
        posts.append(ack(W, now))
        if k == 'events':
            now = ident
            for x in names: events.append((x, ident))
        elif k == 'timeout': now = -1
    last_one = not W.true(W.eq(now, -1))
    W.check('number of posts', W.eq(W.len(S.posted), len(posts) + (1 if last_one else 0)))
    for i, p in enumerate(posts):
        got = W.item(S.posted, i)
        W.check('a poll acknowledges the last batch, or nothing', W.eq(got, p), got)
    if last_one:
        W.check('the last batch is acknowledged as done', W.eq(W.item(S.posted, len(posts)), W.pairs([(b'ack', now), (b'done', True)])))
    W.check('events are delivered once', W.eq(W.len(S.handled), len(events)))
    for i, (x, ident) in enumerate(events):
        m = W.item(S.handled, i)
        W.check('in order', W.eq(W.get(m, 'name'), x))
        W.check('with the id of their batch', W.eq(W.get(m, 'event_queue_id'), ident))
    W.check('the id to be acknowledged', W.eq(W.get(S.q, 'last_id'), now))
    W.check('no longer running', W.no(W.true(W.get(S.q, '_running'))))

@unit('C20', 'One poll from any state', funs=[Q_ + '_processRegionEventQueue', Q_ + 'start', Q_ + 'stop', Q_ + '_parse_result', Q_ + '_decode_eq_result'])
def one(W):
    last = W.int('last id', -1)
    play(W, [W.choice('answer', KINDS + ['malformed'])], last, W.choice('stopped in', ['sleep', 'post']), [W.choice('events', [0, 1, 2])])

@unit('C20', 'Polling starts without an ack', funs=[Q_ + '__init__', Q_ + '_processRegionEventQueue'])
def starts(W):
    kinds = [W.choice('answer', KINDS)]
    rs = response(W, kinds[0], 0)
    S = Queue(W, [rs[0]], stop_in='post')
    S.run()
    W.check('the first poll', W.eq(W.item(S.posted, 0), W.pairs([])))

@unit('C20', 'Stopped before it starts', funs=[Q_ + 'stop', Q_ + '_processRegionEventQueue'])
def never(W):
    last = W.int('last id', -1)
    S = Queue(W, [], last=last)
    S.run()
    some = W.true(W.no(W.eq(last, -1)))
    W.check('number of posts', W.eq(W.len(S.posted), 1 if some else 0))
    if some: W.check('the last batch is acknowledged as done', W.eq(W.item(S.posted, 0), W.pairs([(b'ack', last), (b'done', True)])))
    W.check('nothing is delivered', W.eq(W.len(S.handled), 0))

@unit('C20', 'Three polls', funs=[Q_ + '_processRegionEventQueue'], bounded='histories of 3 polls with at most one event each, from any state')
def three(W):
    last = W.int('last id', -1)
    play(W, [W.choice('answer %d' % i, KINDS) for i in range(3)], last, 'post', [1, 1, 1])

@unit('C20', 'Histories of polls', funs=[Q_ + '_processRegionEventQueue'], mode='conc', runs=400, bounded='drawn histories of up to 12 polls with up to 3 events each')
def many(W):
    n = W.int('polls', 1, 12)
    play(W, [W.choice('answer %d' % i, KINDS + ['events', 'malformed']) for i in range(n)], -1, W.choice('stopped in', ['sleep', 'post']), [W.int('events %d' % i, 0, 3) for i in range(n)])

@unit('C20', 'A subscriber that raises does not disturb the polling', funs=[Q_ + '_processRegionEventQueue', Q_ + '_parse_result'])
def raises(W):
    last = W.int('last id', -1)
    a, ia, na = response(W, 'events', 0); b, ib, nb = response(W, 'events', 1)
    S = Queue(W, [a, b], last=last)
    def handle(m):
        W.note(S.handled, m)
        if W.true(W.eq(W.len(S.handled), 1)): W.throw(W.choice('raises', ['Exception', 'KeyError', 'AttributeError']), b'no')
    W.set(S.q, 'message_handler', W.stub(handle=W.fn(handle)))
    S.run()
    W.check('number of posts', W.eq(W.len(S.posted), 3))
    for i, p in enumerate([ack(W, last), ack(W, ia), W.pairs([(b'ack', ib), (b'done', True)])]):
        W.check('acknowledged all the same', W.eq(W.item(S.posted, i), p))
    W.check('each is delivered once', W.eq(W.len(S.handled), 2))
    W.check('the second batch', W.eq(W.get(W.item(S.handled, 1), 'name'), nb[0]))
