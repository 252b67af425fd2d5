from vc import unit
from xnet import B
CA = B + 'caps'
C_ = CA + '.Capability.'
HE = B + 'helpers'
EX = B + 'exc'
ST = B + 'network.stdlib_client'
FUNS = [C_ + 'GET', C_ + 'POST', C_ + 'POST_CUSTOM', C_ + '_response_handler', HE + '.LLSDDeserializer.deserialize', HE + '.LLSDDeserializer.deserialize_string',
        HE + '.ListLLSDSerializer.serialize', HE + '.DictLLSDSerializer.serialize']
DOC = b'<?xml version="1.0" ?><llsd><map /></llsd>'
UNKNOWN = [b'text/plain', b'application/json', b'', b'application/llsd', b'application/llsd+xmlx', b'application/xhtml', b'image/jpeg', b'text/xml', b'Application/LLSD+XML2']

class Cap(object):
    """a capability whose HTTP client, LLSD reader and LLSD writer are stand-ins"""
    def __init__(self, W, answer):
        self.W = W; self.calls = W.log()
        def get(url, **k):
            W.note(self.calls, b'GET', url)
            return answer()
        def post(url, payload, headers=None, **k):
            W.note(self.calls, b'POST', url, payload, headers)
            return answer()
        settings = W.call(W.imp(B + 'settings', 'Settings'), *W.choice('logging', [(False, True), (True, False)]))
        self.url = W.name('url')
        self.cap = W.call(W.imp(CA, 'Capability'), W.name('name'), self.url, W.stub(GET=W.fn(get), POST=W.fn(post)), settings)
        self.text = W.bytes('serialized')
        self.given = W.log()
        def form(x):
            W.note(self.given, x)
            return self.text
        W.patch('llbase.llsd', 'format_xml', W.fn(form))
    def use(self, how):
        """(outcome, what has to be sent)"""
        W = self.W
        if how == 'GET': return W.tryto(self.cap, 'GET'), (b'GET', self.url)
        if how == 'POST_CUSTOM':
            headers = W.pairs([(b'Content-type', W.name('a type'))]); raw = W.bytes('raw')
            return W.tryto(self.cap, 'POST_CUSTOM', headers, raw), (b'POST', self.url, raw, headers)
        payload = W.choice('payload', [W.pairs([(b'a', 1)]), W.lst([b'x', 2]), W.pairs([]), W.lst([])])
        extra = W.choice('extra headers', ['none', 'one', 'own type'])
        h = [(b'Content-type', b'application/llsd+xml')]
        if extra == 'none': r = W.tryto(self.cap, 'POST', payload)
        else:
            key = b'X-Extra' if extra == 'one' else b'Content-type'
            v = W.name('extra')
            mine = W.pairs([(key, v)])
            r = W.tryto(self.cap, 'POST', payload, mine)
            W.check('the extra headers of the caller stay', W.eq(mine, W.pairs([(key, v)])))
            h = h + [(key, v)] if extra == 'one' else [(key, v)]
        W.check('the payload is serialized', W.eq(W.len(self.given), 1))
        W.check('all of it', W.same_obj(W.item(self.given, 0), payload))
        return r, (b'POST', self.url, self.text, W.pairs(h))
    def sent(self, want):
        W = self.W
        W.check('one request', W.eq(W.len(self.calls), 1))
        W.check('to the URL, with its headers and contents', W.eq(W.item(self.calls, 0), W.arg(want)), W.item(self.calls, 0))

def parser(W, result):
    """what the LLSD reader does: 'value', 'falsy', 'LLSDParseError', ..."""
    seen = W.log()
    value = {'value': W.opaque('value'), 'false': False, 'zero': 0, 'none': None, 'empty': W.pairs([])}.get(result)
    def parse(t, *a):
        W.note(seen, t)
        if result == 'LLSDParseError': W.raise_(W.call(W.imp('llbase.llsd', 'LLSDParseError'), b'bad'))
        if result in ('IndexError', 'ValueError', 'KeyError'): W.throw(result, b'bad')
        return value
    W.patch('llbase.llsd', 'parse', W.fn(parse))
    return value, seen

HOW = ['GET', 'POST', 'POST_CUSTOM']

@unit('C21', 'A good response', funs=FUNS, runs=400)
def good(W):
    how = W.choice('how', HOW)
    ctype = W.choice('type', [b'application/llsd+xml'] + ([] if how == 'GET' else [b'application/xml', b'text/html'])) + W.choice('charset', [b'', b'; charset=utf-8', b';charset=x'])
    body = W.choice('body', [DOC, DOC + b' and more'])
    result = W.choice('result', ['value', 'false', 'zero', 'none', 'empty'])
    value, seen = parser(W, result)
    c = Cap(W, lambda: W.stub(headers=W.pairs([(b'Content-Type', ctype)]), body=body))
    r, want = c.use(how)
    c.sent(want)
    W.check('no error', r.ok, r)
    W.check('the body is read', W.eq(W.item(seen, 0), body))
    W.check('the parsed body is given back', W.same_obj(r.value, value) if result == 'value' else W.eq(r.value, value))

@unit('C21', 'A body that cannot be read', funs=FUNS, runs=200)
def unreadable(W):
    how = W.choice('how', HOW)
    result = W.choice('result', ['LLSDParseError', 'IndexError', 'ValueError', 'KeyError', 'false'])
    body = b'' if result == 'false' else W.bytes('body')
    parser(W, result)
    c = Cap(W, lambda: W.stub(headers=W.pairs([(b'Content-Type', b'application/llsd+xml')]), body=body))
    r, want = c.use(how)
    W.raises('the deserialization error', r, 'DeserializationFailed')
    W.check('with the body', W.eq(W.get(r.exc, 'payload'), body))

@unit('C21', 'A response of another type', funs=FUNS, runs=200)
def types(W):
    how = W.choice('how', HOW)
    ctype = W.choice('type', UNKNOWN + [b'text/html'])
    body = W.choice('body', [b'<html></html>', b'', b'x' + DOC])
    value, seen = parser(W, 'value')
    c = Cap(W, lambda: W.stub(headers=W.pairs([(b'Content-Type', ctype + W.choice('charset', [b'', b'; charset=utf-8']))]), body=body))
    r, want = c.use(how)
    c.sent(want)
    W.raises('the deserializer-not-found error', r, 'DeserializerNotFound')
    W.check('with the type', W.eq(W.get(r.exc, 'content_type'), ctype))
    W.check('nothing is read', W.eq(W.len(seen), 0))

@unit('C21', 'A payload of another type', funs=[C_ + 'POST'])
def payloads(W):
    c = Cap(W, lambda: None)
    p = W.choice('payload', [b'text', None, 7, (1, 2), W.call(W.imp(B + 'settings', 'Settings'), True)])
    r = W.tryto(c.cap, 'POST', p)
    W.raises('the deserializer-not-found error', r, 'DeserializerNotFound')
    W.check('nothing is sent', W.eq(W.len(c.calls), 0))

@unit('C21', 'An HTTP error', funs=FUNS[:3], runs=300)
def errors(W):
    how = W.choice('how', HOW)
    code = 404 if W.bool('not found') else W.int('code', 400, 599)
    msg = W.name('reason'); body = W.bytes('error body')
    def fail(): W.raise_(W.call(W.imp(EX, 'HTTPError'), code, msg, W.stub(read=W.fn(lambda: body))))
    c = Cap(W, fail)
    r, want = c.use(how)
    c.sent(want)
    if W.true(W.eq(code, 404)):
        W.raises('the resource-not-found error', r, 'ResourceNotFound')
        W.check('with the URL', W.eq(W.get(r.exc, 'url'), c.url))
    else:
        W.raises('the resource error', r, 'ResourceError')
        for k, v in (('url', c.url), ('code', code), ('message', msg), ('body', body), ('method', how[:4].encode('ascii').strip(b'_'))):
            W.check('with the ' + k, W.eq(W.get(r.exc, k), v), k)

@unit('C21', 'The HTTP client', funs=[ST + '.StdLibClient.GET', ST + '.StdLibClient.POST'])
def client(W):
    how = W.choice('how', ['GET', 'POST'])
    fails = W.bool('fails')
    url = W.name('url'); data = W.bytes('data'); hd = W.pairs([(W.name('header'), W.name('its value'))])
    code = W.int('code', 400 if fails else 200, 599 if fails else 299); msg = W.name('reason'); body = W.bytes('body')
    hl = W.lst([(W.name('got header'), W.name('its value'))])
    asked = W.log()
    W.patch('urllib2', 'Request', W.fn(lambda u, *a, **k: (u, a, k.get('headers'))))
    fp = W.stub(read=W.fn(lambda: body), readline=W.fn(lambda: body))
    def urlopen(req):
        W.note(asked, *req)
        if fails: W.raise_(W.call(W.imp('urllib2', 'HTTPError'), url, code, msg, None, fp))
        return W.stub(headers=W.stub(items=W.fn(lambda: hl)), code=code, msg=msg, read=W.fn(lambda: body))
    W.patch('urllib2', 'urlopen', W.fn(urlopen))
    W.patch(ST, 'Response', W.fn(lambda **k: k))
    c = W.call(W.imp(ST, 'StdLibClient'))
    r = W.tryto(c, 'GET', url, headers=hd) if how == 'GET' else W.tryto(c, 'POST', url, data, headers=hd)
    W.check('one request', W.eq(W.len(asked), 1))
    W.check('as asked', W.eq(W.item(asked, 0), W.arg((url, () if how == 'GET' else (data,), hd))))
    if fails:
        W.raises('the error', r, 'HTTPError')
        W.check('code', W.eq(W.get(r.exc, 'code'), code)); W.check('reason', W.eq(W.get(r.exc, 'msg'), msg))
        W.check('contents', W.eq(W.do(W.get(r.exc, 'fp'), 'read'), body))
    else:
        W.check('no error', r.ok, r)
        W.check('body', W.eq(W.item(r.value, b'body'), body))
        W.check('headers', W.eq(W.item(r.value, b'headerlist'), hl))

TREES = [{'a': 1}, ['x', 2, [], {}], {}, [], {'a': ['b', {'c': None}]}, {'n': -5, 'f': 1.5, 't': True}, ['', u'caf\xe9', '<&>"', ' x ']]
BODIES = [('<llsd><integer>0</integer></llsd>', 0), ('<llsd><boolean>false</boolean></llsd>', False), ('<?xml version="1.0" ?><llsd><undef /></llsd>', None), ('<llsd><string>x</string></llsd>', 'x'),
          (' <llsd><array><integer>1</integer></array></llsd>', [1])]
BROKEN = ['', '  ', 'mumpitz', 'barfoo', '<llsd></llsd>', '<llsd><foo/></llsd>', '<llsd><integer>x</integer></llsd>', '<html>', '<', '{', '[', "'abc", 'i', 'u12', '<llsd><map><key>a</key></map></llsd>', '\xff\xfe', '<?llsd/binary?>', 's(5)"a"']

@unit('C21', 'With the real LLSD library', funs=FUNS, mode='conc', runs=200, bounded='some payloads and bodies')
def real(W):
    from llbase import llsd
    sent = []
    body, want = W.choice('body', BODIES + [(t, None) for t in BROKEN] + [(llsd.format_xml(t), t) for t in TREES])
    def post(url, data, headers=None): sent.append((url, data, headers)); return W.stub(headers={'Content-Type': 'application/llsd+xml'}, body=body)
    cap = W.imp(CA, 'Capability')('x', 'http://x', W.stub(POST=post), W.imp(B + 'settings', 'Settings')(True))
    p = W.choice('payload', TREES)
    r = W.attempt(cap.POST, p)
    W.check('the payload arrives', len(sent) == 1 and llsd.parse(sent[0][1]) == p, repr(sent))
    if body in BROKEN: W.raises('the deserialization error', r, 'DeserializationFailed')
    else: W.check('the parsed body', r.ok and r.value == want and type(r.value) == type(want), repr(r))

@unit('C21', 'Types of many kinds', funs=FUNS[:4], mode='conc', runs=1500, bounded='drawn content types')
def many_types(W):
    how = W.choice('how', HOW)
    t = W.choice('main', ['application', 'text', 'image', 'Application', 'TEXT', 'x-application', 'application/x', '', 'model']) + W.choice('slash', ['/', '/', '/', '', ' / ', '//']) + \
        W.choice('sub', ['xml', 'llsd+xml', 'html', 'llsd', 'xhtml+xml', 'plain', 'json', 'llsd+json', 'llsd+binary', 'llsd+notation', 'soap+xml', 'atom+xml', 'XML', 'HTML', 'LLSD+XML', 'x-llsd+xml', 'vnd.x+xml', 'html5', 'xml-dtd', 'xml-external-parsed-entity', 'octet-stream', 'llsd+xmlx', '', ' xml', 'xml '])
    body = W.choice('body', [DOC, DOC + ' and more', '<html></html>', '', ' ' + DOC, 'x' + DOC, '<?xml version="1.0" ?><llsd>', '<llsd><map /></llsd>', '<html>' + DOC + '</html>'])
    good = t == 'application/llsd+xml' or how != 'GET' and (t == 'application/xml' or t == 'text/html' and body.startswith(DOC))
    value, seen = parser(W, 'value')
    c = Cap(W, lambda: W.stub(headers={'Content-Type': t + W.choice('charset', ['', '; charset=utf-8', ';', ' ;x=application/xml', ';application/llsd+xml'][:3])}, body=body))
    r, want = c.use(how)
    if good:
        W.check('no error', r.ok, repr(r.exc))
        W.check('the parsed body is given back', r.value is value)
    else:
        W.raises('the deserializer-not-found error', r, 'DeserializerNotFound')
        W.check('with the type', r.exc.content_type == t)
