from vc import unit
from xdec import *
TD = B + 'message.template_dict'
T = TD + '.TemplateDictionary.'
CLASSES = {'Fixed': -1, 'High': 1, 'Medium': 2, 'Low': 4}
ORDER = ['Fixed', 'High', 'Medium', 'Low']

def number_bytes(W, freq, num):
    if freq == 'High': return W.byte(num)
    if freq == 'Medium': return W.cat(b'\xff', W.byte(num))
    if freq == 'Low': return W.cat(b'\xff\xff', W.uint(num, 2, True))
    return W.cat(b'\xff\xff\xff', W.byte(num))

def shipped(W):
    td = W.call(W.imp(TD, 'TemplateDictionary'))
    out = []
    for t in W.items(W.get(td, 'template_list')):
        f = W.get(t, 'frequency')
        out.append((W.get(t, 'name'), [c for c in ORDER if CLASSES[c] == f][0], W.get(t, 'msg_num'), t))
    return td, out
SHIPPED = [('shipped', shipped)]

@unit('C09', 'Shipped templates are found by their name', funs=[T + '__init__', T + 'build_dictionaries', T + 'get_template', T + '__getitem__', T + 'get_template_list'], bases=SHIPPED, runs=60, weight=3)
def by_name(W):
    td, all = W.base['shipped']
    W.check('there are templates', len(all) > 400)
    for name, f, n, t in all:
        W.check('found', W.same_obj(W.do(td, 'get_template', name), t))
        W.check('found by subscription', W.same_obj(W.do(td, '__getitem__', name), t))
    W.same('names in the order of the file', W.do(td, 'get_template_list'), W.lst([a[0] for a in all]))
    if W.sym:
        # the names are different, so a name that is looked up is any of them or none
        other = W.name('other name')
        for a in all: W.assume(W.no(W.eq(other, a[0])))
    else:
        names = [a[0] for a in all]
        other = W.choice('other name', ['', 'X', 'testmessage', 'TestMessage ', 'TESTMESSAGE', names[0][:-1], names[7].lower(), names[9] + 's', W.bytes('some name')])
        W.assume(other not in names)
    W.check('a name that was not declared', W.is_none(W.do(td, 'get_template', other)))
    W.check('a name that was not declared, by subscription', W.is_none(W.do(td, '__getitem__', other)))

@unit('C09', 'Shipped templates are found by frequency and number', funs=[T + 'build_dictionaries', T + 'build_message_ids', T + 'get_template_by_pair'], bases=SHIPPED, runs=60, weight=3)
def by_number(W):
    td, all = W.base['shipped']
    for name, f, n, t in all:
        W.check('found', W.same_obj(W.do(td, 'get_template_by_pair', f.encode('ascii'), n), t), name)
        W.same('number bytes', W.get(t, 'msg_num_hex'), number_bytes(W, f, n))
    cls = W.choice('class', ORDER)
    other = W.int('other number', 0, 65535)
    for name, f, n, t in all:
        if f == cls: W.assume(W.no(W.eq(other, n)))
    W.check('a number that was not declared', W.is_none(W.do(td, 'get_template_by_pair', cls.encode('ascii'), other)))

def asking(W, td):
    """a decoder that tells the name of the template it selects"""
    W.patch(DE, 'TemplateDictionary', W.fn(lambda *a, **k: td))
    asked = W.log()
    h = W.stub(is_message_handled=W.fn(lambda n: (W.note(asked, n), False)[1]))
    x = W.stub(validate_udp_msg=W.fn(lambda n: True))
    return W.call(W.imp(DE, 'UDPMessageDeserializer'), h, settings(W), message_xml=x), asked

D_ = DE + '.UDPMessageDeserializer.'
@unit('C09', 'A receiver looks up the template by the number bytes', funs=[D_ + 'deserialize', D_ + '__decode_header', D_ + '__decode_frequency', D_ + '__decode_num', T + 'get_template_by_pair'], bases=SHIPPED, runs=800)
def received(W):
    how = W.choice('class', ORDER)
    num = W.int('number', 0, {'High': 254, 'Medium': 254, 'Low': 65279, 'Fixed': 255}[how])
    if W.sym:
        # the lookup itself is the unit before this one
        declared = W.bool('declared')
        name = W.name('name')
        t = W.call(W.imp(B + 'message.template', 'MessageTemplate'), name)
        def lookup(f, n):
            W.check('looked up by class', W.eq(f, how.encode('ascii')))
            W.check('looked up by number', W.eq(n, num))
            return t if declared else None
        d, asked = asking(W, W.stub(get_template_by_pair=W.fn(lookup)))
        want = [name] if declared else []
    else:
        td, all = W.base['shipped']
        d, asked = asking(W, td)
        if W.bool('a declared number'): num = W.choice('declared', [a[2] for a in all if a[1] == how])
        want = [a[0] for a in all if (a[1], a[2]) == (how, num)]
    extra = W.bytes('extra', lo=0, hi=255)
    buf = W.cat(W.byte(W.int('flags', 0, 3) * 0x20), W.bytes('id', n=4), W.byte(W.blen(extra)), extra, number_bytes(W, how, num), W.bytes('rest'))
    for k in (1, 2):
        o = W.tryto(d, 'deserialize', buf)
        W.check('ends with nothing', o.ok and W.is_none(o.value))
        W.same('the template it selects', asked, W.lst(want * k))

def templates(W, hi):
    """a list of templates with different names and different numbers in their class"""
    MT = W.imp(B + 'message.template', 'MessageTemplate')
    out = []
    for i in range(W.choice('templates', list(range(hi + 1)))):
        name = W.name('name%d' % i)
        f = W.choice('class%d' % i, ORDER)
        n = W.int('number%d' % i, 0, 65279 if f == 'Low' else 255 if f == 'Fixed' else 254)
        for a in out:
            W.assume(W.no(W.eq(a[0], name)))
            if a[1] == f: W.assume(W.no(W.eq(a[2], n)))
        t = W.call(MT, name)
        W.set(t, 'frequency', CLASSES[f]); W.set(t, 'msg_num', n)
        out.append((name, f, n, t))
    return out

@unit('C09', 'A dictionary of given templates', funs=[T + '__init__', T + 'build_dictionaries', T + 'build_message_ids', T + 'get_template', T + 'get_template_by_pair'], runs=300,
      bounded='lists of up to 2 templates in the prover (names and numbers arbitrary)', weight=2)
def given(W):
    all = templates(W, 2 if W.sym else 30)
    td = W.call(W.imp(TD, 'TemplateDictionary'), W.lst([a[3] for a in all]))
    for name, f, n, t in all:
        W.check('found by name', W.same_obj(W.do(td, 'get_template', name), t))
        W.check('found by number', W.same_obj(W.do(td, 'get_template_by_pair', f.encode('ascii'), n), t))
        W.same('number bytes', W.get(t, 'msg_num_hex'), number_bytes(W, f, n))
    other = W.name('other name'); cls = W.choice('other class', ORDER); num = W.int('other number', 0, 65279)
    W.assume(W.all(*[W.no(W.eq(other, a[0])) for a in all]))
    W.assume(W.all(*[W.no(W.eq(num, a[2])) for a in all if a[1] == cls]))
    W.check('another name', W.is_none(W.do(td, 'get_template', other)))
    W.check('another number', W.is_none(W.do(td, 'get_template_by_pair', cls.encode('ascii'), num)))

@unit('C09', 'A template of the caller is used instead of the shipped ones', funs=[T + '__init__'], runs=5)
def custom(W):
    td = W.call(W.imp(TD, 'TemplateDictionary'), message_template=template_file(W, TINY))
    t = W.do(td, 'get_template', b'Tiny')
    W.check('found by name', W.no(W.is_none(t)))
    W.check('found by number', W.same_obj(W.do(td, 'get_template_by_pair', b'High', 1), t))
    W.same('number bytes', W.get(t, 'msg_num_hex'), b'\1')
    for n in (b'TestMessage', b'PacketAck', b'tiny'): W.check('no other', W.is_none(W.do(td, 'get_template', n)))
    W.check('no other number', W.is_none(W.do(td, 'get_template_by_pair', b'Fixed', 251)))
