from vc import unit
from xnet import B
CA = B + 'caps'

def seed(W, answer):
    posted = W.log()
    def post(payload, *a, **k):
        W.note(posted, payload)
        return answer()
    rest = W.stub()
    s = W.call(W.imp(CA, 'SeedCapability'), b'seed', W.name('seed url'), rest, W.call(W.imp(B + 'settings', 'Settings'), W.bool('quiet')))
    W.set(s, 'POST', W.fn(post))
    return s, rest, posted

@unit('C22', 'The requested capabilities', funs=[CA + '.SeedCapability.get', CA + '.Capability.__init__'], runs=400, bounded='up to 4 requested names, 2 more granted')
def requested(W):
    k = W.choice('names', [0, 1, 2, 3])
    names = [W.name('name%d' % i) for i in range(k)]
    if W.bool('a name twice') and k: names.append(names[0])
    granted = [(n, W.name('url%d' % i)) for i, n in enumerate(names[:k])] + [(W.name('other%d' % i), W.name('other url%d' % i)) for i in range(W.choice('others', [0, 1, 2]))]
    for i in range(len(granted)):
        for j in range(i): W.assume(W.no(W.eq(granted[i][0], granted[j][0])))
    drop = W.choice('refused', [None, 0, k - 1]) if k else None
    if drop is not None: granted = granted[:drop] + granted[drop + 1:]
    s, rest, posted = seed(W, lambda: W.pairs([(b'capabilities', W.pairs(granted))] + ([(b'more', 1)] if W.bool('more entries') else [])))
    asked = W.lst(list(names))
    r = W.tryto(s, 'get', asked)
    W.check('one request', W.eq(W.len(posted), 1))
    W.check('for exactly those names', W.eq(W.item(posted, 0), W.pairs([(b'capabilities', W.lst(list(names)))])))
    W.check('the list of the caller stays', W.eq(asked, W.lst(list(names))))
    if drop is not None:
        W.check('a name that was not granted is an error', not r.ok)
        return
    W.check('no error', r.ok, r)
    W.check('one for each name', W.eq(W.len(r.value), k))
    for n, u in granted[:k]:
        W.check('there is one', W.haskey(r.value, n))
        c = W.item(r.value, n)
        W.check('a capability', W.isinst(c, 'Capability'))
        W.check('its name', W.eq(W.get(c, 'name'), n))
        W.check('its URL', W.eq(W.get(c, 'public_url'), u))
        W.check('the same HTTP client', W.same_obj(W.get(c, 'restclient'), rest))

@unit('C22', 'A response without capabilities is an error', funs=[CA + '.SeedCapability.get'])
def nothing(W):
    s, rest, posted = seed(W, lambda: W.choice('response', [W.pairs([]), None, W.pairs([(b'other', 1)])]))
    r = W.tryto(s, 'get', W.lst([W.name('name')]))
    W.check('an error', not r.ok, r)

@unit('C22', 'Histories of requests', funs=[CA + '.SeedCapability.get', CA + '.Capability.POST'], mode='conc', runs=200, bounded='drawn histories of up to 6 requests through the HTTP client')
def history(W):
    from llbase import llsd
    pool = ['A', 'B', 'Seed', 'EventQueueGet', 'x y', u'caf\xe9', '', 'a' * 40]
    state = {}; asked = []
    def post(url, data, headers=None):
        asked.append((url, llsd.parse(data)))
        return W.stub(headers={'Content-Type': 'application/llsd+xml'}, body=llsd.format_xml({'capabilities': state['granted']}))
    rest = W.stub(POST=post)
    s = W.imp(CA, 'SeedCapability')('seed', 'http://seed', rest, W.imp(B + 'settings', 'Settings')(True))
    for n in range(W.int('requests', 1, 6)):
        names = [W.choice('name %d.%d' % (n, i), pool) for i in range(W.int('names %d' % n, 0, 5))]
        state['granted'] = dict((x, 'http://%d/%d' % (n, i)) for i, x in enumerate(pool) if W.bool('granted %d.%d' % (n, i)) or (x in names and W.int('sure %d.%d' % (n, i), 0, 3)))
        del asked[:]
        r = W.attempt(s.get, names) if names or W.bool('given %d' % n) else W.attempt(s.get)
        W.check('one request to the seed', asked == [('http://seed', {'capabilities': names})], repr(asked))
        if [x for x in names if x not in state['granted']]: W.check('a name that was not granted is an error', not r.ok)
        else:
            W.check('no error', r.ok, repr(r.exc))
            W.check('exactly the names', sorted(r.value) == sorted(set(names)), repr((names, r.value)))
            for x in names:
                c = r.value[x]
                W.check('the capability', (c.name, c.public_url) == (x, state['granted'][x]) and c.restclient is rest, repr(c))
