from vc import unit
import struct
import xfield, xtpl, xdec
from xnet import B
TP = B + 'message.template_parser'
P_ = TP + '.MessageTemplateParser.'
MT = B + 'message.msgtypes'
TRUST = {b'Trusted': 'LL_TRUSTED', b'NotTrusted': 'LL_NOTRUST'}
ENC = {b'Unencoded': 'LL_UNENCODED', b'Zerocoded': 'LL_ZEROCODED'}
DEP = {b'Deprecated': 'LL_DEPRECATED', b'UDPDeprecated': 'LL_UDPDEPRECATED', b'UDPBlackListed': 'LL_UDPBLACKLISTED', b'NotDeprecated': 'LL_NOTDEPRECATED', None: 'LL_NOTDEPRECATED'}
FREQ = {b'Fixed': 'FIXED_FREQUENCY_MESSAGE', b'High': 'HIGH_FREQUENCY_MESSAGE', b'Medium': 'MEDIUM_FREQUENCY_MESSAGE', b'Low': 'LOW_FREQUENCY_MESSAGE'}
KIND = {b'Single': 'MBT_SINGLE', b'Multiple': 'MBT_MULTIPLE', b'Variable': 'MBT_VARIABLE'}

def const(W, cls, n): return W.imp(MT, cls, n)

def parsed(W, text):
    return W.call(W.imp(TP, 'MessageTemplateParser'), xdec.template_file(W, text))

def groups(W, **g):
    """a match with these groups"""
    return W.stub(group=W.fn(lambda i: g.get('g%d' % i)), groups=W.fn(lambda: ()))

@unit('C08', 'The header of any message', funs=[P_ + '_start_new_template'], mode='sym')
def header(W):
    p = parsed(W, xdec.TINY)
    name = W.name('name')
    freq = W.choice('class', [b'Fixed', b'High', b'Medium', b'Low'])
    trust = W.choice('trust', sorted(TRUST)); enc = W.choice('encoding', sorted(ENC))
    dep = W.choice('deprecation', [None, b'Deprecated', b'UDPDeprecated', b'UDPBlackListed', b'NotDeprecated'])
    text, n = W.numeral('number', 0)
    top = {b'Fixed': 2 ** 32 - 1, b'High': 255, b'Medium': 255, b'Low': 65535}[freq]
    W.assume(W.all(n >= 0, n <= top))
    t = W.do(p, '_start_new_template', groups(W, g1=name, g2=freq, g3=text, g4=trust, g5=enc, g6=None if dep is None else W.cat(b' ', dep), g7=dep))
    W.check('name', W.eq(W.get(t, 'name'), name))
    W.check('frequency', W.eq(W.get(t, 'frequency'), const(W, 'MsgFrequency', FREQ[freq])))
    W.check('frequency code', W.eq(W.get(t, 'frequency'), xtpl.CLASSES[freq]))
    W.check('number', W.eq(W.get(t, 'msg_num'), W.mod(n, 256) if freq == b'Fixed' else n))
    want = {b'Fixed': lambda: W.uint(n, 4, True), b'High': lambda: W.byte(n), b'Medium': lambda: W.cat(b'\xff', W.byte(n)), b'Low': lambda: W.cat(b'\xff\xff', W.uint(n, 2, True))}[freq]()
    W.same('number bytes', W.get(t, 'msg_num_hex'), want)
    W.check('trust', W.eq(W.get(t, 'msg_trust'), const(W, 'MsgTrust', TRUST[trust])))
    W.check('encoding', W.eq(W.get(t, 'msg_encoding'), const(W, 'MsgEncoding', ENC[enc])))
    W.check('deprecation', W.eq(W.get(t, 'msg_deprecation'), const(W, 'MsgDeprecation', DEP[dep])))
    W.check('no blocks yet', W.eq(W.len(W.get(t, 'blocks')), 0))

@unit('C08', 'The header of any block', funs=[P_ + '_start_new_block'], mode='sym')
def block(W):
    p = parsed(W, xdec.TINY)
    name = W.name('name'); kind = W.choice('kind', [b'Single', b'Multiple', b'Variable'])
    text, n = W.numeral('count') if kind == b'Multiple' else (None, 0)
    b = W.do(p, '_start_new_block', groups(W, g1=name, g2=kind, g3=text, g4=text))
    W.check('name', W.eq(W.get(b, 'name'), name))
    W.check('kind', W.eq(W.get(b, 'block_type'), const(W, 'MsgBlockType', KIND[kind])))
    W.check('count', W.eq(W.get(b, 'number'), n))
    W.check('no fields yet', W.eq(W.len(W.get(b, 'variables')), 0))

@unit('C08', 'Any field', funs=[P_ + '_start_new_var', MT + '.sizeof'], mode='sym')
def var(W):
    p = parsed(W, xdec.TINY)
    name = W.name('name'); ty = W.choice('type', xfield.ORDER)
    text = n = None
    if ty in ('MVT_FIXED', 'MVT_VARIABLE'): text, n = W.numeral('size')
    else: n = 4 if ty == 'MVT_IP_ADDR' else xfield.width(ty)
    o = W.tryto(p, '_start_new_var', groups(W, g1=name, g2=xtpl.WORD[ty], g3=text, g4=text))
    if W.true(W.eq(n > 0, False)): W.raises('a size that is not positive', o, 'MessageTemplateParsingError')
    else:
        W.check('no error', o.ok, o)
        W.check('name', W.eq(W.get(o.value, 'name'), name))
        W.check('type', W.eq(W.get(o.value, 'type'), xfield.code(W, ty)))
        W.check('size', W.eq(W.get(o.value, 'size'), n))

@unit('C08', 'Blocks and fields are added in order', funs=[B + 'message.template.MessageTemplate.add_block', B + 'message.template.MessageTemplateBlock.add_variable'])
def added(W):
    T = B + 'message.template'
    for cls, add, l, get, part in (('MessageTemplate', 'add_block', 'blocks', 'get_block', 'MessageTemplateBlock'),
                                   ('MessageTemplateBlock', 'add_variable', 'variables', 'get_variable', 'MessageTemplateVariable')):
        t = W.call(W.imp(T, cls), W.name('of'))
        args = () if part == 'MessageTemplateBlock' else (1, 1)
        old = W.list('old', lambda i: W.call(W.imp(T, part), W.name('old name'), *args))
        W.set(t, l, old)
        was = W.lcat(old)
        x = W.call(W.imp(T, part), W.name('new name'), *args)
        W.do(t, add, x)
        W.same('added at the end', W.get(t, l), W.lcat(W.arg(was), W.lst([x])))
        W.check('found by its name', W.same_obj(W.do(t, get, W.get(x, 'name')), x))

@unit('C08', 'Without a template file', funs=[P_ + '__init__'])
def missing(W):
    W.raises('the documented error', W.attempt(W.imp(TP, 'MessageTemplateParser'), None), 'MessageTemplateNotFound')

def agrees(W, p, version, msgs):
    W.check('version', p.version == float(version), repr((p.version, version)))
    W.check('messages in the order of the file', [t.name for t in p.message_templates] == [m.name for m in msgs], repr(([t.name for t in p.message_templates], [m.name for m in msgs])))
    W.check('their count', p.count == len(msgs))
    for t, m in zip(p.message_templates, msgs):
        W.check('frequency', t.frequency == const(W, 'MsgFrequency', FREQ[m.freq]) == xtpl.CLASSES[m.freq], m.name)
        W.check('number', t.msg_num == m.num, m.name)
        W.check('number bytes', t.msg_num_hex == m.number(W), repr((m.name, t.msg_num_hex)))
        W.check('trust', t.msg_trust == const(W, 'MsgTrust', TRUST[m.trust]), m.name)
        W.check('encoding', t.msg_encoding == const(W, 'MsgEncoding', ENC[m.enc]), m.name)
        W.check('deprecation', t.msg_deprecation == const(W, 'MsgDeprecation', DEP[m.dep]), m.name)
        W.check('blocks in order', [b.name for b in t.get_blocks()] == [b.name for b in m.blocks], repr((m.name, [b.name for b in t.get_blocks()])))
        for b, w in zip(t.get_blocks(), m.blocks):
            W.check('block', (b.name, b.block_type, b.number) == (w.name, const(W, 'MsgBlockType', KIND[w.kind]), w.count), repr((m.name, w.name, b.block_type, b.number)))
            W.check('block by name', t.get_block(b.name) is b)
            W.check('fields', [(f.name, f.type, f.size) for f in b.get_variables()] == [(f.name, xfield.code(W, f.type), f.size) for f in w.fields],
                    repr((m.name, w.name, [(f.name, f.type, f.size) for f in b.get_variables()])))
            for f in b.get_variables(): W.check('field by name', b.get_variable(f.name) is f)

@unit('C08', 'Drawn template texts are parsed as written', funs=[P_ + '_parse_template_file'], mode='conc', runs=500, weight=2,
      bounded='drawn texts of up to 5 messages in four styles with comments everywhere')
def drawn(W):
    for k in range(W.int('texts', 1, 2)):
        t = ' %d' % k
        msgs = xtpl.draw(W, 0, 5, t)
        version = W.choice('version' + t, [b'2.0', b'1.0', b'2', b'3.25'])
        agrees(W, parsed(W, xtpl.text(W, msgs, version, t)), version, msgs)

@unit('C08', 'A drawn text with a bad size is an error', funs=[P_ + '_parse_template_file'], mode='conc', runs=150, bounded='drawn texts')
def bad_size(W):
    msgs = xtpl.draw(W)
    fs = [f for m in msgs for b in m.blocks for f in b.fields if f.type in ('MVT_FIXED', 'MVT_VARIABLE')]
    if not fs: return
    W.choice('which', fs).size = 0
    W.raises('the documented error', W.attempt(parsed, W, xtpl.text(W, msgs)), 'MessageTemplateParsingError')

def tokens(text):
    """another reader of the format"""
    words = []
    for line in text.split('\n'):
        words += line.split('//')[0].replace('{', ' { ').replace('}', ' } ').split()
    return words

def read_all(text):
    back = dict((xtpl.WORD[t], t) for t in xfield.ORDER)
    w = tokens(text); i = 0
    version = None; msgs = []
    def upto(i):
        j = i
        while w[j] not in '{}': j += 1
        return w[i:j], j
    if w[0] == 'version': version = w[1]; i = 2
    while i < len(w):
        head, i = upto(i + 1)
        blocks = []
        while w[i] == '{':
            bh, i = upto(i + 1)
            fields = []
            while w[i] == '{':
                fh, i = upto(i + 1)
                ty = back[fh[1]]
                size = int(fh[2]) if ty in ('MVT_FIXED', 'MVT_VARIABLE') else 4 if ty == 'MVT_IP_ADDR' else xfield.width(ty)
                fields.append(xtpl.Field(fh[0], ty, size)); i += 1
            blocks.append(xtpl.Blk(bh[0], bh[1], int(bh[2]) if bh[1] == 'Multiple' else 0, fields)); i += 1
        i += 1
        n = int(head[2], 0)
        msgs.append(xtpl.Msg(head[0], head[1], n & 255 if head[1] == 'Fixed' else n, n, head[3], head[4], head[5] if len(head) > 5 else None, blocks))
    return version, msgs

@unit('C08', 'The shipped template is parsed as written', funs=[P_ + '_parse_template_file'], mode='conc', runs=1, bounded='the shipped file')
def shipped(W):
    f = W.imp(B + 'message.data', 'msg_tmpl')
    f.seek(0)
    text = f.read()
    version, msgs = read_all(text)
    W.check('there are messages', len(msgs) > 400)
    agrees(W, W.call(W.imp(TP, 'MessageTemplateParser'), f), version, msgs)
    agrees(W, W.call(W.imp(TP, 'MessageTemplateParser'), f), version, msgs)
