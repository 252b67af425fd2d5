# a decoder of any template: what its loops read is told by induction over blocks, repetitions and fields
from xread import *
FUNS = [D_ + 'deserialize', D_ + '__decode_data', D_ + '__validate_message', D_ + '__decode_template', D_ + '__decode_header', D_ + '__decode_frequency', D_ + '__decode_num',
        B + 'message.template.MsgBlockData.__init__', B + 'message.template.MsgVariableData.__init__']
SINGLE, MULTIPLE, VARIABLE = 0, 1, 2
T = B + 'message.template'
UP = B + 'message.data_unpacker.DataUnpacker.unpack_data'

class AnyTemplate(object):
    def __init__(self, W, complete):
        self.W = W; self.complete = complete
        self.code = dict((t, xfield.code(W, t)) for t in xfield.ORDER)
        self.variable = self.code['MVT_VARIABLE']
        self.name = W.name('name')
        self.template = W.call(W.imp(T, 'MessageTemplate'), self.name)
        self.blocks = W.seq('block', self.block)
        W.set(self.template, 'blocks', W.arg(self.blocks))
        W.set(self.template, 'frequency', 1)
    def block(self, i):
        W = self.W
        b = W.call(W.imp(T, 'MessageTemplateBlock'), W.name('bname'))
        W.set(b, 'block_type', W.int('kind', 0, 2)); W.set(b, 'number', W.int('count', 0, 255))
        W.set(b, 'variables', W.arg(W.seq('field', self.field)))
        return b
    def field(self, j):
        W = self.W
        t = W.int('type', min(self.code.values()), max(self.code.values())); w = W.int('width', 1)
        W.given(W.any(W.no(W.eq(t, self.variable)), W.eq(w, 1), W.eq(w, 2), W.eq(w, 4)))
        return W.call(W.imp(T, 'MessageTemplateVariable'), W.name('vname'), t, w)

    # where things are
    def at(self, buf, pos0):
        W = self.W
        self.buf = buf; self.end = W.blen(buf)
        self.F = W.pfold(2, lambda p: self.R.at(p[:1], p[1]), lambda p, s, i: self.after_field(p[0], i, s))
        self.R = W.pfold(1, lambda p: self.P.at((), p[0]) + self.counted(p[0]), lambda p, s, i: self.F.at((p[0], i), W.len(W.get(W.nth(self.blocks, p[0]), 'variables'))))
        self.P = W.pfold(0, lambda p: pos0, lambda p, s, i: self.R.at((i,), self.reps(i, s)))
    def fits(self, end):
        if self.complete: self.W.given(end <= self.end)
    def counted(self, b):
        W = self.W
        return W.ite(W.eq(W.get(W.nth(self.blocks, b), 'block_type'), VARIABLE), 1, 0)
    def reps(self, b, pos):
        W = self.W
        x = W.nth(self.blocks, b)
        k = W.get(x, 'block_type')
        self.fits(pos + self.counted(b))
        return W.ite(W.eq(k, SINGLE), 1, W.ite(W.eq(k, MULTIPLE), W.get(x, 'number'), self.num(pos, 1)))
    def num(self, pos, n):
        """the number in n bytes of the datagram"""
        W = self.W
        v = 0
        for k in range(n): v = v + 256 ** k * W.at(self.buf, pos + k)
        return v
    def sized(self, f, pos):
        """(where the bytes of a field start, how many)"""
        W = self.W
        w = W.get(f, 'size')
        var = W.eq(W.get(f, 'type'), self.variable)
        n = W.ite(W.eq(w, 1), self.num(pos, 1), W.ite(W.eq(w, 2), self.num(pos, 2), self.num(pos, 4)))
        return pos + W.ite(var, w, 0), W.ite(var, n, w)
    def after_field(self, b, v, pos):
        W = self.W
        f = W.nth(W.get(W.nth(self.blocks, b), 'variables'), v)
        start, n = self.sized(f, pos)
        self.fits(start); self.fits(start + n)
        return start + n

def generic(W, a, buf, fails=False):
    td = W.stub(get_template_by_pair=W.fn(lambda f, n: a.template))
    W.patch(DE, 'TemplateDictionary', W.fn(lambda *x, **k: td))
    h = W.stub(is_message_handled=W.fn(lambda n: True))
    d = W.call(W.imp(DE, 'UDPMessageDeserializer'), h, xdec.settings(W), message_xml=W.stub(validate_udp_msg=W.fn(lambda n: True)))
    widths = dict((a.code[n], c) for n, c in (('MVT_U8', 1), ('MVT_U16', 2), ('MVT_U32', 4)))
    def unpack(args, k):
        args = args[1:]
        data, t = args[0], args[1]
        pos = k.get('start_index', args[2] if len(args) > 2 else -1)
        e = k.get('endian_type', b'')
        n = k.get('var_size', -1)
        W.same('what is read', data, buf)
        if isinstance(t, int) and t in widths:
            if W.true(pos + widths[t] > a.end):
                W.raise_(W.call(W.imp(B + 'exc', 'DataUnpackingError'), data, b'too short'))
            if W.true(W.eq(e, b'>')): return W.toint(W.sub(buf, pos, pos + widths[t]), widths[t], True)
            return a.num(pos, widths[t])
        if fails and not W.true(W.eq(t, a.variable)) and W.true(W.eq(W.uf('decodes', t, pos, n), 0)):
            W.raise_(W.call(W.imp(B + 'exc', 'DataUnpackingError'), data, b'no value'))
        return decoded(W, a, t, pos, n)
    W.contract(UP, unpack)
    return d

def decoded(W, a, t, pos, n):
    a.last = pos + n
    if W.true(W.eq(t, a.variable)): return W.sub(a.buf, pos, pos + n)
    return W.uf('decoded', t, pos, n)

CASES = (('six bytes or more follow', lambda e, n: e < n), ('five bytes follow', lambda e, n: e == n), ('fewer bytes follow', lambda e, n: e > n))

def plain(W, a, case, fails=False):
    """(a decoder, a datagram with a plain header)"""
    buf = W.bytes('datagram', lo=8)
    flags = W.at(buf, 0); extra = W.at(buf, 5)
    W.assume(W.all(flags < 16, 7 + extra <= W.blen(buf)))      # what the flags say is checked by the other units
    W.assume(W.at(buf, 6 + extra) < 255)
    W.assume(case(12 + extra, W.blen(buf)))
    a.at(buf, 7 + extra)
    return generic(W, a, buf, fails), buf


ASSUMPTIONS = ['decoding any template: DataUnpacker.unpack_data is used by its contract (C02): numbers are little-endian unless said otherwise, too few bytes raise DataUnpackingError, '
               'the value of any other field is any function of its type, position and length',
               'decoding any template: MsgData.__init__, MsgData.add_block and MsgBlockData.add_variable are used by their contracts (C23): what they are given is kept in order']
