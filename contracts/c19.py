from vc import unit
from xeq import *
import xfield
FUNS = [Q_ + '_decode_eq_result', Q_ + '_parse_result', B + 'message.message.Message.__init__', B + 'message.message.Message.add_block', B + 'message.message.Block.__init__',
        B + 'message.message.Block.add_variable', B + 'message.message.Variable.__init__']

def event(W, name, body): return W.pairs([(b'message', name), (b'body', body)])

def some_names(W, t, k):
    l = [W.name('%s %d' % (t, i)) for i in range(k)]
    for i in range(k):
        for j in range(i): W.assume(W.no(W.eq(l[i], l[j])))
    return l

def templated(W, t, reps, fields):
    """a body for a message of the template: (body, [(block name, [[(field, value)]])])"""
    out = []; d = []
    for b, (bn, r) in enumerate(zip(some_names(W, 'block' + t, len(reps)), reps)):
        l = []
        for k in range(r):
            fs = [(f, W.opaque('value%s %d.%d.%d' % (t, b, k, i), False)) for i, f in enumerate(some_names(W, 'field%s %d' % (t, b), fields))]
            l.append(fs)
        out.append((bn, l)); d.append((bn, W.lst([W.pairs(fs) for fs in l])))
    return W.pairs(d), out

def other(W, t, fields):
    fs = [(f, W.opaque('value%s %d' % (t, i), False)) for i, f in enumerate(some_names(W, 'field' + t, fields))]
    return W.pairs(fs), [(b'Message_Data', [fs])]

def check_message(W, S, m, name, ident, blocks):
    W.check('name', W.eq(W.get(m, 'name'), name))
    W.check('id of the batch', W.eq(W.get(m, 'event_queue_id'), ident))
    W.check('host', W.same_obj(W.get(m, 'host'), S.host))
    have = [(b, l) for b, l in blocks if l]
    bl = W.get(m, 'blocks')
    W.check('number of blocks', W.eq(W.len(bl), len(have)))
    for b, l in have:
        W.check('block', W.haskey(bl, b))
        got = W.item(bl, b)
        W.check('repetitions', W.eq(W.len(got), len(l)))
        for k, fs in enumerate(l):
            x = W.item(got, k)
            W.check('name of a block', W.eq(W.get(x, 'name'), b))
            W.check('number of fields', W.eq(W.len(W.get(x, 'vars')), len(fs)))
            for f, v in fs:
                W.check('field', W.haskey(W.get(x, 'vars'), f))
                y = W.item(W.get(x, 'vars'), f)
                W.check('name of a field', W.eq(W.get(y, 'name'), f))
                W.check('value', W.same_obj(W.get(y, 'data'), v))

def deliver(W, known, make, extra=()):
    """a queue that is answered with what make gives: (id, events)"""
    ident, events = make
    parts = [(b'events', events)] if events is not None else []
    if ident is not None:
        parts = [(b'id', ident)] + parts if W.choice('id first', [True, False]) else parts + [(b'id', ident)]
    S = Queue(W, [lambda d: W.pairs(list(extra) + parts)], known=known)
    S.run()
    return S

def others_too(W):
    k = W.name('other key')
    W.assume(W.all(W.no(W.eq(k, b'id')), W.no(W.eq(k, b'events'))))
    return [(k, W.choice('other value', [b'x', 1, None, W.lst([event(W, W.name('no event'), other(W, ' of another', 1)[0])])]))]

@unit('C19', 'Two events', funs=FUNS, runs=500, weight=2, bounded='two events; templated bodies of up to 2 blocks with up to 2 repetitions of up to 2 fields, others with up to 2 fields; any names and values')
def two(W):
    events = []; want = []; table = []
    ident = W.int('id', 0)
    for i in range(2):
        t = ' of %d' % i
        name = W.name('event%d' % i)
        shape = W.choice('shape%d' % i, ['blocks', 'one block', 'empty block', 'fieldless block', 'fields', 'no field'] if i == 0 else ['blocks', 'fields'])
        if shape == 'blocks': body, blocks = templated(W, t, [2, 1], 2 - i)
        elif shape == 'one block': body, blocks = templated(W, t, [1], 1)
        elif shape == 'fieldless block': body, blocks = templated(W, t, [2], 0)
        elif shape == 'empty block': body, blocks = templated(W, t, [0, 1], 1)
        else: body, blocks = other(W, t, 2 if shape == 'fields' else 0)
        table.append((name, 'block' in shape))
        events.append(event(W, name, body)); want.append((name, blocks))
    if not W.true(W.no(W.eq(table[0][0], table[1][0]))): W.assume(table[0][1] == table[1][1])
    def known(n):
        for x, k in table:
            if W.true(W.eq(n, x)): return W.stub(name=x) if k else None
        W.check('only the names of the events are looked up', False)
    S = deliver(W, known, (ident, W.lst(events)), others_too(W) if W.bool('another entry') else [])
    W.check('one message per event', W.eq(W.len(S.handled), 2))
    for i, (n, b) in enumerate(want): check_message(W, S, W.item(S.handled, i), n, ident, b)

@unit('C19', 'A response without events', funs=FUNS[:2])
def none(W):
    case = W.choice('case', ['no events', 'empty', 'others'])
    ident = W.int('id', 0)
    extra = others_too(W) if case == 'others' else []
    ev = None if case == 'no events' else W.lst([])
    S = deliver(W, None, (ident, ev), extra)
    W.check('no message', W.eq(W.len(S.handled), 0))

def any_number(W, table, body_of, check):
    """any number of events with bodies of one shape; table: whether a name is in the template"""
    ident = W.int('id', 0)
    def mk(i): return W.pairs([(b'message', W.name('event')), (b'body', body_of(W))])
    events = W.seq('event', mk)
    S = deliver(W, lambda n: W.stub(name=n) if table else None, (ident, W.arg(events)))
    W.check('one message per event', W.eq(W.len(S.handled), W.len(W.arg(events))))
    j = W.index('any event', W.len(W.arg(events)))
    W.look(j)
    e = W.nth(events, j)
    m = W.item(S.handled, j)
    body = W.item(e, b'body')
    check_message(W, S, m, W.item(e, b'message'), ident, check(W, body))

def fields_of(W, d, n): return [(W.item(W.do(d, 'items'), i)[0], W.item(W.do(d, 'items'), i)[1]) for i in range(n)]

def given_names(W, t, k):
    f = [W.name('%s%d' % (t, j)) for j in range(k)]
    for a in range(k):
        for b in range(a): W.given(W.no(W.eq(f[a], f[b])))
    return f

@unit('C19', 'Any number of events that are in no template', funs=FUNS)
def others(W):
    k = W.choice('fields', [0, 1, 3])
    any_number(W, False, lambda W: W.pairs([(f, W.opaque('value%d' % j, False)) for j, f in enumerate(given_names(W, 'field', k))]),
               lambda W, body: [(b'Message_Data', [fields_of(W, body, k)])])

@unit('C19', 'Any number of events that are in the template', funs=FUNS)
def templates(W):
    shape = W.choice('shape', [[(1, 1)], [(2, 2)], [(1, 2), (2, 1)], [(0, 1), (1, 1)], [(2, 0), (1, 1)], []])
    def body(W):
        return W.pairs([(b, W.lst([W.pairs([(f, W.opaque('value %d %d %d' % (i, r, j), False)) for j, f in enumerate(given_names(W, 'field %d ' % i, k))]) for r in range(reps)]))
                        for i, (b, (reps, k)) in enumerate(zip(given_names(W, 'block', len(shape)), shape))])
    def blocks(W, d):
        if not W.sym: return [(b, [r.items() for r in l]) for b, l in d.items()]
        out = []
        for i, (reps, k) in enumerate(shape):
            b, l = W.item(W.do(d, 'items'), i)
            out.append((b, [fields_of(W, W.item(l, r), k) for r in range(reps)]))
        return out
    any_number(W, True, body, blocks)
