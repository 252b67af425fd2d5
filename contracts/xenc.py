# any template and any message that fits it, and the bytes they stand for
from xnet import B, RELIABLE, ACK, seqno
import xfield, xtpl, xdec
SE = B + 'message.udpserializer'
T = B + 'message.template'
S_ = SE + '.UDPMessageSerializer.'
DP = B + 'message.data_packer.DataPacker.'
SINGLE, MULTIPLE, VARIABLE = 0, 1, 2

class Anything(object):
    """a template of any shape and a message that fits it"""
    def __init__(self, W, strict=True, total=True, fields=True, widths=True):
        self.W = W; self.strict = strict; self.fields = fields; self.widths = widths
        self.fixed, self.variable = xfield.code(W, 'MVT_FIXED'), xfield.code(W, 'MVT_VARIABLE')
        self.code = dict((t, xfield.code(W, t)) for t in xfield.ORDER)
        self.types = [self.code[t] for t in xfield.ORDER]
        self.name = W.name('name')
        self.number = W.bytes('number', lo=1, hi=4)
        self.template = W.call(W.imp(T, 'MessageTemplate'), self.name)
        self.map = W.mapping('given', lambda i: W.name('given'), self.repetitions, sized=False, total=total)
        self.message = W.call(W.imp(B + 'message.message', 'Message'), self.name)
        W.set(self.message, 'blocks', self.map)
        self.blocks = W.seq('block', self.block)
        W.set(self.template, 'blocks', W.arg(self.blocks))
        W.set(self.template, 'msg_num_hex', self.number)
    def block(self, i):
        W = self.W
        name = W.name('bname')
        b = W.call(W.imp(T, 'MessageTemplateBlock'), name)
        kind = W.int('kind', 0, 2); count = W.int('count', 0, 255)
        if self.strict:
            n = W.len(W.item(self.map, name))
            W.given(W.any(W.no(W.eq(kind, SINGLE)), W.eq(n, 1)))
            W.given(W.any(W.no(W.eq(kind, MULTIPLE)), W.eq(n, count)))
        W.set(b, 'block_type', kind); W.set(b, 'number', count)
        W.set(b, 'variables', W.arg(W.seq('field', self.field)))
        return b
    def field(self, j):
        W = self.W
        t = W.int('type', min(self.types), max(self.types))
        w = W.int('width', 1) if self.widths else W.int('width')
        if self.widths: W.given(W.any(W.no(W.eq(t, self.variable)), W.eq(w, 1), W.eq(w, 2), W.eq(w, 4)))
        return W.call(W.imp(T, 'MessageTemplateVariable'), W.name('vname'), t, w)
    def repetitions(self, k):
        W = self.W
        return W.arg(W.seq('rep', self.rep, 0, 255))
    def rep(self, i):
        W = self.W
        b = W.call(W.imp(B + 'message.message', 'Block'), W.name('rname'))
        W.set(b, 'vars', W.mapping('value', lambda i: W.name('v'), self.value, sized=False, total=self.fields))
        return b
    def value(self, k):
        W = self.W
        return W.call(W.imp(B + 'message.message', 'Variable'), k, W.opaque('data'))

FUNS = [S_ + 'serialize', S_ + 'build_block', S_ + 'set_current_template', T + '.MsgData.get_block', T + '.MsgBlockData.get_variable',
        T + '.MessageTemplate.get_blocks', T + '.MessageTemplateBlock.get_variables']

def generic(W, a):
    """an encoder of the template a; fields are packed by any function (C01, C02)"""
    def find(n):
        return a.template if W.true(W.eq(n, a.name)) else None
    W.patch(SE, 'TemplateDictionary', W.fn(lambda *x, **k: W.stub(get_template=W.fn(find))))
    s = W.call(W.imp(SE, 'UDPMessageSerializer'), message_xml=W.stub(validate_udp_msg=W.fn(lambda n: True)))
    def pack(args, k):
        args = args[1:]
        v, t = args[0], args[1]
        e = k.get('endian_type', args[2] if len(args) > 2 else b'')
        big = W.true(W.eq(e, b'>'))
        for n, c in (('MVT_U8', 1), ('MVT_U32', 4), ('MVT_U16', 2)):
            if isinstance(t, int) and t == a.code[n]:
                W.assume(W.all(v >= 0, v < 256 ** c))       # values fit their fields
                return W.uint(v, c, big)
        return packed(W, v, t) if not big else W.uf('packed the other way', v, t)
    W.contract(DP + 'pack_data', pack)
    return s

def packed(W, v, t): return W.uf('packed', v, t)

def layout_of(W, a):
    """the bytes of the blocks"""
    def field(b, r, f):
        t = W.get(f, 'type')
        if not a.fields and not W.true(W.haskey(W.get(r, 'vars'), W.get(f, 'name'))): return b'missing'
        d = packed(W, W.get(W.item(W.get(r, 'vars'), W.get(f, 'name')), 'data'), t)
        if not W.true(W.eq(t, a.variable)): return d
        w = W.get(f, 'size'); n = W.blen(d)
        for k in (1, 2):
            if W.true(W.eq(w, k)): return W.cat(W.uint(n, k, False), d)
        if not a.widths and not W.true(W.eq(w, 4)): return b'unsupported'
        return W.cat(W.uint(n, 4, False), d)
    def block(b):
        l = W.item(a.map, W.get(b, 'name'))
        body = W.join(l, lambda r: W.join(W.get(b, 'variables'), lambda f: field(b, r, f)))
        if W.true(W.eq(W.get(b, 'block_type'), VARIABLE)): return W.cat(W.byte(W.len(l)), body)
        return body
    return W.join(a.blocks, block)
