from vc import unit
from xdec import *
from xnet import host, dispatcher, client, UD, CI, message
import xhist
MX = B + 'message.message_dot_xml'
V = MX + '.MessageDotXML.'
FLAVORS = [b'template', b'llsd', b'Template', b'template ', b'', b'templates', b'binary']

class Listed(object):
    """an arbitrary parsed message.xml"""
    def __init__(self, W, tag=''):
        self.W = W
        def flavor():
            if W.sym: return W.name('flavor' + tag)
            return W.choice('flavor' + tag, FLAVORS)
        def val(k): return W.dict({b'flavor': flavor(), b'trusted-sender': W.bool('trusted' + tag)})
        self.map = W.mapping('messages' + tag, lambda i: W.name('listed' + tag), val, sized=False, objects=True)
        self.llsd = W.dict({b'serverDefaults': W.dict(), b'messages': self.map, b'capBans': W.dict(), b'maxQueuedEvents': 100, b'messageBans': W.dict()})
    def allows(self, name):
        W = self.W
        if not W.true(W.haskey(self.map, name)): return True
        return W.eq(W.item(W.item(self.map, name), b'flavor'), b'template')

def parsing(W, which):
    """llsd.parse gives the listing of the text"""
    def parse(text, *a):
        for t, l in which:
            if W.true(W.eq(t, text)): return l.llsd
        return W.throw('ValueError', b'unknown text')
    W.patch('llbase.llsd', 'parse', W.fn(parse))

@unit('C16', 'A message is allowed iff it is not listed or listed as template', funs=[V + '__init__', V + 'validate_udp_msg'], runs=600)
def allowed(W):
    shipped = W.imp(MX, 'msg_details')
    l = Listed(W)
    if W.bool('given'):
        other = Listed(W, ' shipped')
        parsing(W, [(b'the text', l), (shipped, other)])
        x = W.call(W.imp(MX, 'MessageDotXML'), b'the text') if W.bool('positional') else W.call(W.imp(MX, 'MessageDotXML'), message_xml=b'the text')
    else:
        parsing(W, [(shipped, l)])
        x = W.call(W.imp(MX, 'MessageDotXML'))
    for k in ('1', '2', '1'):
        name = W.name('name' + k) if W.sym else W.choice('name' + k, ['a name', 'b']) if W.bool('rare' + k) else W.name('name' + k)
        W.check('allowed', W.eq(W.do(x, 'validate_udp_msg', name), l.allows(name)))

@unit('C16', 'The shipped listing', funs=[V + '__init__', V + 'validate_udp_msg'], mode='conc', runs=3)
def shipped(W):
    import re
    x = W.call(W.imp(MX, 'MessageDotXML'))
    text = W.imp(MX, 'msg_details')
    body = text[text.index('<key>messages</key>'):text.index('<key>capBans</key>')]
    listed = re.findall(r'<key>(\w+)</key>\s*<map>\s*<key>flavor</key>\s*<string>(\w*)</string>', body)
    W.check('there are messages', len(listed) == text.count('<key>flavor</key>') and len(listed) > 50)
    for name, flavor in listed:
        W.check(name, W.do(x, 'validate_udp_msg', name) == (flavor == 'template'))
    names = dict(listed)
    for name in ('TestMessage', 'StartPingCheck', 'NoSuchMessage', ''):
        if name not in names: W.check(name, W.do(x, 'validate_udp_msg', name) is True)

def barring(W, no):
    """a listing that tells what it was asked"""
    asked = W.log()
    def v(n):
        W.note(asked, n)
        return not no
    return W.stub(validate_udp_msg=W.fn(v)), asked

S_ = SE + '.UDPMessageSerializer.'
@unit('C16', 'The serializer gives bytes iff the listing allows the message', funs=[S_ + 'serialize', S_ + '__init__'], runs=200)
def serializes(W):
    no = W.bool('barred'); name = W.name('name'); known = W.bool('known')
    x, asked = barring(W, no)
    t = W.call(W.imp(B + 'message.template', 'MessageTemplate'), name)
    W.set(t, 'msg_num_hex', b'\1')
    W.patch(SE, 'TemplateDictionary', W.fn(lambda *a, **k: W.stub(get_template=W.fn(lambda n: t if known else None))))
    s = W.call(W.imp(SE, 'UDPMessageSerializer'), None, x) if W.bool('positional') else W.call(W.imp(SE, 'UDPMessageSerializer'), message_xml=x)
    m = W.call(W.imp(B + 'message.message', 'Message'), name)
    W.set(m, 'send_flags', W.int('flags', 0, 255))
    W.set(m, 'packet_id', W.int('id', 0, 2 ** 32 - 1))
    acks = W.list('acks', lambda i: W.int('ack', 0, 2 ** 32 - 1), 0, 255)
    W.set(m, 'acks', acks); W.set(m, 'num_acks', W.len(acks))
    for k in (1, 2):
        o = W.tryto(s, 'serialize', m)
        W.check('ends', o.ok)
        W.check('bytes iff allowed', W.is_none(o.value) == (no or not known))
    if known:
        n = W.len(asked)
        W.check('the listing is asked', n > 0)
        if n > 0: W.check('for this message', W.eq(W.item(asked, 0), name))

@unit('C16', 'The deserializer gives a message iff the listing allows it', funs=[DE + '.UDPMessageDeserializer.deserialize'], runs=200)
def deserializes(W):
    no = W.bool('barred')
    x, asked = barring(W, no)
    handled = W.bool('handled'); deferred = W.bool('deferred')
    d = W.call(W.imp(DE, 'UDPMessageDeserializer'), W.stub(is_message_handled=W.fn(lambda n: handled)), settings(W, ENABLE_DEFERRED_PACKET_PARSING=deferred), template_file(W, TINY), x)
    flags = W.choice('flags', [0, 0x40, 0x10, 0x80])
    body = b'\1\7' if flags == 0x80 else W.cat(b'\1', W.bytes('value', n=1))
    buf = W.cat(W.byte(flags), W.bytes('id', n=4), b'\0', body)
    if flags == 0x10: buf = W.cat(buf, W.bytes('ack', n=4), b'\1')
    for k in (1, 2):
        o = W.tryto(d, 'deserialize', buf)
        W.check('ends', o.ok)
        W.check('a message iff allowed', W.eq(W.no(W.is_none(o.value)), W.all(W.no(no), W.any(handled, W.no(deferred)))))
    for n in W.items(asked): W.check('for this message', W.eq(n, b'Tiny'))

@unit('C16', 'Nothing is sent for a message without bytes', funs=[UD + '.UDPDispatcher.__send_message'], runs=200)
def sends(W):
    none = W.bool('barred')
    D, sent = dispatcher(W, W.stub(serialize=W.fn(lambda m: None if none else b'bytes')), None)
    real = []
    # the real client, with a socket that records
    wire = W.log()
    W.set(D, 'udp_client', W.call(W.imp(B + 'network.net', 'NetUDPClient')))
    W.set(D, 'socket', W.stub(sendto=W.fn(lambda data, a: W.note(wire, data))))
    h, ip, port = host(W)
    m, name = message(W)
    if W.bool('reliable'): o = W.tryto(D, 'send_reliable', m, h, 2)
    else: o = W.tryto(D, 'send_message', m, h)
    W.check('ends', o.ok)
    W.same('on the wire', wire, W.lst([] if none else [b'bytes']))

@unit('C16', 'The listing of the caller decides in the dispatcher', funs=[UD + '.UDPDispatcher.__init__'], runs=20)
def handed_over(W):
    got = W.log()
    def made(kind):
        def f(*a, **k):
            W.note(got, kind, k['message_xml'] if 'message_xml' in k else a[{'s': 1, 'd': 3}[kind]] if len(a) > {'s': 1, 'd': 3}[kind] else None)
            return W.stub()
        return W.fn(f)
    W.patch(UD, 'UDPMessageSerializer', made('s')); W.patch(UD, 'UDPMessageDeserializer', made('d'))
    x = W.stub(validate_udp_msg=W.fn(lambda n: True))
    mine = W.bool('given')
    default = W.stub(validate_udp_msg=W.fn(lambda n: True))
    W.patch(UD, 'MessageDotXML', W.fn(lambda *a, **k: default))
    s = W.call(W.imp(B + 'settings', 'Settings'), True)
    if mine: D = W.call(W.imp(UD, 'UDPDispatcher'), client(W, W.log()), s, W.stub(), None, x)
    else: D = W.call(W.imp(UD, 'UDPDispatcher'), client(W, W.log()), s, W.stub())
    for kind, l in W.items(got): W.check('the listing', W.same_obj(l, x if mine else default))
    W.check('both', W.len(got) == 2)

MM = B + 'message_manager'
@unit('C16', 'The listing of the caller reaches the dispatcher of a message manager', funs=[MM + '.MessageManager.__init__'], runs=20, mode='conc')
def managed(W):
    import os, tempfile
    got = []
    W.patch(MM, 'UDPDispatcher', lambda **k: got.append(k) or W.stub())
    fd, p = tempfile.mkstemp()
    os.write(fd, XML); os.close(fd)
    f = open(p)
    try:
        s = W.call(W.imp(B + 'settings', 'Settings'), True)
        W.call(W.imp(MM, 'MessageManager'), None, W.stub(), {}, s, message_xml=f)
        W.call(W.imp(MM, 'MessageManager'), None, W.stub(), {}, s)
    finally:
        f.close(); os.unlink(p)
    a = got[0]['message_xml']; b = got[1]['message_xml']
    W.check('barred by the caller', a.validate_udp_msg('TestMessage') is False)
    W.check('allowed by the caller', a.validate_udp_msg('EnableSimulator') is True)
    W.check('shipped', b.validate_udp_msg('TestMessage') is True and b.validate_udp_msg('EnableSimulator') is False)
XML = '''<?xml version="1.0" ?>
<llsd><map>
<key>serverDefaults</key><map/><key>messages</key><map>
<key>TestMessage</key><map><key>flavor</key><string>llsd</string></map>
<key>EnableSimulator</key><map><key>flavor</key><string>template</string></map>
</map><key>capBans</key><map/><key>maxQueuedEvents</key><integer>100</integer><key>messageBans</key><map/>
</map></llsd>'''

xhist.register('C16')
