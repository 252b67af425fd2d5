# what the bytes of a datagram say under a template
import xfield, xtpl, xdec
from xnet import B, RELIABLE, ACK, ZERO, seqno
from xtpl import Msg, Blk, Field
DE = xdec.DE
D_ = DE + '.UDPMessageDeserializer.'

class Fit(Exception): pass

def trailer(W, buf):
    """(the datagram without its acks, the acks) or None if they do not fit"""
    flags = W.at(buf, 0)
    if not W.true(W.eq(W.mod(W.div(flags, 16), 2), 1)): return buf, W.lcat(W.lst([]))
    end = W.blen(buf) - 1
    n = W.at(buf, end)
    if not W.true(end - 4 * n >= 7 - 1): return None
    start = end - 4 * n
    return W.sub(buf, 0, start), W.upto(n, lambda i: W.toint(W.sub(buf, start + 4 * i, start + 4 * i + 4), 4, True))

class Reader(object):
    def __init__(self, W, buf, pos): self.W = W; self.buf = buf; self.pos = pos; self.end = W.blen(buf)
    def take(self, n):
        if not self.W.true(self.pos + n <= self.end): raise Fit()
        b = self.W.sub(self.buf, self.pos, self.pos + n)
        self.pos = self.pos + n
        return b

def read(W, m, data, pos):
    """[(block name, [[(field name, type, bytes)]])] or None if something does not fit"""
    r = Reader(W, data, pos)
    out = []
    try:
        for b in m.blocks:
            if b.kind == b'Single': n = 1
            elif b.kind == b'Multiple': n = b.count
            else:
                n = W.at(r.take(1), 0)
            reps = []
            for k in range(n):
                fs = []
                for f in b.fields:
                    if f.type == 'MVT_VARIABLE':
                        w = W.toint(r.take(f.size), f.size)
                        raw = r.take(w)
                        if f.name != b'Data': raw = W.call(W.get(raw, 'rstrip'), b'\0')
                    else: raw = r.take(f.size)
                    fs.append((f.name, f.type, raw))
                reps.append(fs)
            out.append((b.name, reps))
    except Fit:
        return None
    return out

def check_field(W, name, t, got, raw):
    if t in ('MVT_VARIABLE', 'MVT_FIXED', 'MVT_IP_ADDR'): W.same(name, got, raw)
    else: xfield.check(W, name, t, got, xfield.read(W, t, raw))

def check_blocks(W, name, got, want):
    have = [(n, l) for n, l in want if l]
    blocks = W.get(got, 'blocks')
    W.check(name + ': number of blocks', W.eq(W.len(blocks), len(have)))
    for n, reps in have:
        W.check(name + ': block ' + n.decode('ascii'), W.haskey(blocks, n))
        l = W.item(blocks, n)
        W.check('%s: repetitions' % name, W.eq(W.len(l), len(reps)))
        for k, fs in enumerate(reps):
            x = W.item(l, k)
            W.check('%s: its number' % name, W.eq(W.get(x, 'block_number'), k))
            W.check('%s: its name' % name, W.eq(W.get(x, 'name'), n))
            W.check('%s: number of fields' % name, W.eq(W.len(W.get(x, 'vars')), len(fs)))
            W.same('%s: order of the fields' % name, W.get(x, 'var_list'), W.lst([f for f, t, r in fs]))
            for f, t, r in fs:
                v = W.item(W.get(x, 'vars'), f)
                W.check('%s: name of a field' % name, W.eq(W.get(v, 'name'), f))
                check_field(W, '%s: %s' % (name, f.decode('ascii')), t, W.get(v, 'data'), r)

def check_header(W, name, got, m, flags, pid, acks):
    W.check(name + ': name', W.eq(W.get(got, 'name'), m.name))
    W.check(name + ': flags', W.eq(W.get(got, 'send_flags'), flags))
    W.check(name + ': sequence number', W.eq(W.get(got, 'packet_id'), pid))
    W.check(name + ': reliable', W.eq(W.get(got, 'reliable'), W.eq(W.mod(W.div(flags, 64), 2), 1)))
    W.same(name + ': acks', W.get(got, 'acks'), W.arg(acks))
    W.check(name + ': number of acks', W.eq(W.get(got, 'num_acks'), W.len(W.arg(acks))))

def shape(name, *blocks):
    return Msg(name, b'High', 1, 1, b'NotTrusted', b'Unencoded', None, list(blocks))
def field(name, t, size=None): return Field(name, t, size if size else xfield.width(t))

SHAPES = [
    ('numbers', shape(b'Numbers', Blk(b'One', b'Single', 0, [field(b'A', 'MVT_U8'), field(b'B', 'MVT_U16'), field(b'C', 'MVT_S32'), field(b'P', 'MVT_IP_PORT'), field(b'D', 'MVT_BOOL')]))),
    ('text', shape(b'Text', Blk(b'One', b'Single', 0, [field(b'T', 'MVT_VARIABLE', 1), field(b'Data', 'MVT_VARIABLE', 2), field(b'MoreData', 'MVT_VARIABLE', 4)]))),
    ('multiple', shape(b'Multi', Blk(b'M', b'Multiple', 2, [field(b'A', 'MVT_U8'), field(b'T', 'MVT_VARIABLE', 1)]), Blk(b'Z', b'Single', 0, [field(b'F', 'MVT_FIXED', 5)]))),
    ('variable', shape(b'Vary', Blk(b'V', b'Variable', 0, [field(b'A', 'MVT_U32'), field(b'T', 'MVT_VARIABLE', 1)]), Blk(b'W', b'Single', 0, [field(b'I', 'MVT_IP_ADDR', 4)]))),
    ('vectors', shape(b'Vec', Blk(b'One', b'Single', 0, [field(b'A', 'MVT_LLVector3'), field(b'B', 'MVT_LLUUID'), field(b'C', 'MVT_F32')]))),
    ('none', shape(b'None')),
]

def base_of(m):
    def make(W): return None
    return make

def one_template(W, m):
    """a decoder that knows the template m only"""
    T = B + 'message.template'
    t = W.call(W.imp(T, 'MessageTemplate'), m.name)
    W.set(t, 'frequency', xtpl.CLASSES[m.freq]); W.set(t, 'msg_num', m.num); W.set(t, 'msg_num_hex', m.number(W))
    for b in m.blocks:
        x = W.call(W.imp(T, 'MessageTemplateBlock'), b.name)
        W.set(x, 'block_type', xtpl.KINDS.index(b.kind)); W.set(x, 'number', b.count)
        for f in b.fields: W.do(x, 'add_variable', W.call(W.imp(T, 'MessageTemplateVariable'), f.name, xfield.code(W, f.type), f.size))
        W.do(t, 'add_block', x)
    td = W.call(W.imp(B + 'message.template_dict', 'TemplateDictionary'), W.lst([t]))
    W.patch(DE, 'TemplateDictionary', W.fn(lambda *a, **k: td))
    h = W.stub(is_message_handled=W.fn(lambda n: True))
    return W.call(W.imp(DE, 'UDPMessageDeserializer'), h, xdec.settings(W), message_xml=W.stub(validate_udp_msg=W.fn(lambda n: True)))
