# templates of any shape, drawn for the real code: their text, messages that fit them and their bytes
import struct
import xfield
from xnet import B
TYPE = dict((n.replace('MVT_', ''), n) for n in xfield.ORDER)
WORD = {'MVT_FIXED': b'Fixed', 'MVT_VARIABLE': b'Variable', 'MVT_IP_ADDR': b'IPADDR', 'MVT_IP_PORT': b'IPPORT'}
for _t in xfield.ORDER:
    if _t not in WORD: WORD[_t] = _t[4:].encode('ascii')
KINDS = [b'Single', b'Multiple', b'Variable']
CLASSES = {b'Fixed': -1, b'High': 1, b'Medium': 2, b'Low': 4}
PLAIN = ['MVT_U8', 'MVT_U32', 'MVT_VARIABLE', 'MVT_FIXED']

class Field(object):
    def __init__(self, name, type, size): self.name = name; self.type = type; self.size = size
class Blk(object):
    def __init__(self, name, kind, count, fields): self.name = name; self.kind = kind; self.count = count; self.fields = fields
class Msg(object):
    def __init__(self, name, freq, num, written, trust, enc, dep, blocks):
        self.name = name; self.freq = freq; self.num = num; self.written = written
        self.trust = trust; self.enc = enc; self.dep = dep; self.blocks = blocks
    def number(self, W):
        """its bytes on the wire"""
        if self.freq == b'High': return W.byte(self.num)
        if self.freq == b'Medium': return W.cat(b'\xff', W.byte(self.num))
        if self.freq == b'Low': return W.cat(b'\xff\xff', W.uint(self.num, 2, True))
        return W.uint(self.written, 4, True)

def draw_field(W, t, j, names, types=None):
    name = W.choice('named' + t, [b'Data', b'data', b'MoreData', b'Database', b'DATA', b'Da']) if W.int('isdata' + t, 0, 3) == 0 else b'F%d' % j
    if name in names: name = b'F%d' % j
    ty = W.choice('type' + t, types or xfield.ORDER)
    if ty == 'MVT_VARIABLE': size = W.choice('width' + t, [1, 1, 2, 2, 4])
    elif ty == 'MVT_FIXED': size = W.choice('size' + t, [1, 2, 4, 8, 32, 64, 3])
    elif ty == 'MVT_IP_ADDR': size = 4
    else: size = xfield.width(ty)
    return Field(name, ty, size)

def draw_message(W, t, used, names):
    n = len(names)
    base = W.choice('name' + t, ['Alpha', 'Beta', 'A', 'PacketAck', 'RegionHandshakeReply', 'TestMessage', 'Z9'])
    name = base if base not in names else b'%s%d' % (base, n)
    names.append(name)
    for k in range(50):
        f = W.choice('class%s.%d' % (t, k), [b'High', b'Medium', b'Low', b'Fixed'])
        # FF would read as another class
        num = W.int('num%s.%d' % (t, k), 0 if f == b'Fixed' else 1, {b'High': 254, b'Medium': 254, b'Low': 65279, b'Fixed': 255}[f])
        if (f, num) not in used: break
    used.add((f, num))
    blocks = []; bn = []
    for i in range(W.int('blocks' + t, 0, 4)):
        u = '%s b%d' % (t, i)
        kind = W.choice('kind' + u, KINDS)
        count = W.choice('count' + u, [1, 2, 3, 4, 1, 2, 17]) if kind == b'Multiple' else 0
        fs = []
        for j in range(W.choice('fields' + u, [1, 1, 2, 3, 5, 0])): fs.append(draw_field(W, '%s f%d' % (u, j), j, [x.name for x in fs]))
        blocks.append(Blk(b'B%d' % i if not W.int('odd' + u, 0, 6) else b'Block_%d' % i, kind, count, fs))
    return Msg(name, f, num, num + 0xffffff00 if f == b'Fixed' else num, W.choice('trust' + t, [b'Trusted', b'NotTrusted']), W.choice('enc' + t, [b'Unencoded', b'Zerocoded']),
               W.choice('dep' + t, [None, None, b'Deprecated', b'UDPDeprecated', b'UDPBlackListed', b'NotDeprecated']), blocks)

def draw(W, lo=1, hi=3, t=''):
    used = set(); names = []
    return [draw_message(W, '%s m%d' % (t, i), used, names) for i in range(W.int('messages' + t, lo, hi))]

def text(W, msgs, version=b'2.0', t=''):
    """written down in one of the styles of the shipped file"""
    style = W.int('style' + t, 0, 3)
    nl = b'\r\n' if W.int('line ends' + t, 0, 3) == 0 else b'\n'
    comments = [b'// a comment', b'\t// { Not Counted', b'//}', b'  // Name High 7 NotTrusted Unencoded', b'', b'   ', b'//']
    remarks = [b' // a remark', b'\t// {', b' // } the end', b'// Fine Single', b' // Low 3 Trusted Zerocoded', b' //']
    out = []
    def say(s):
        if style == 3:
            for k in range(W.int('comments%s %d' % (t, len(out)), 0, 2)): out.append(W.choice('comment%s %d' % (t, len(out)), comments))
        if style == 3 and W.bool('remark%s %d' % (t, len(out))): s += W.choice('remarked%s %d' % (t, len(out)), remarks)
        out.append(s)
    say(b'// header')
    say(b'version ' + version)
    for m in msgs:
        ind = [b'', b'', b'    ', b''][style]
        head = [m.name, m.freq, (b'0x%X' % m.written) if m.freq == b'Fixed' or (style == 2 and W.bool('hex%s %d' % (t, len(out)))) else b'%d' % m.written, m.trust, m.enc] + ([m.dep] if m.dep else [])
        sep = [b' ', b'\t', b'  ', b' '][style]
        if style == 2:
            say(ind + b'{ ' + sep.join(head))
        else:
            say(ind + b'{'); say(ind + b'\t' + sep.join(head))
        for b in m.blocks:
            bh = [b.name, b.kind] + ([b'%d' % b.count] if b.kind == b'Multiple' else [])
            say(ind + b'\t{'); say(ind + b'\t\t' + sep.join(bh))
            for f in b.fields:
                fh = [f.name, WORD[f.type]] + ([b'%d' % f.size] if f.type in ('MVT_FIXED', 'MVT_VARIABLE') else [])
                if style == 1:
                    say(ind + b'\t\t{'); say(ind + b'\t\t\t' + sep.join(fh)); say(ind + b'\t\t}')
                else: say(ind + b'\t\t{\t' + sep.join(fh) + b'\t}')
            say(ind + b'\t}')
        say(ind + b'}')
    return nl.join(out) + (nl if not W.bool('no last line end' + t) else b'')

def value(W, f, t):
    """(what is given, its bytes with any length, what is received: a check(name, got))"""
    ty = f.type
    if ty == 'MVT_FIXED' or ty == 'MVT_IP_ADDR':
        v = W.bytes('v' + t, n=f.size)
        return v, v, lambda name, got: W.same(name, got, v)
    if ty == 'MVT_VARIABLE':
        kind = W.choice('text' + t, ['bytes', 'bytes', 'text', 'none', 'ends in NUL', 'long'])
        cap = 254 if f.size == 1 else 1000
        if kind == 'bytes': v = W.bytes('v' + t, lo=0, hi=min(cap, 60)); raw = v
        elif kind == 'text': v = W.uni('v' + t); raw = W.utf8(v)
        elif kind == 'none': v = None; raw = b''
        elif kind == 'long': raw = v = W.bytes('v' + t, n=cap)
        else: v = W.bytes('v' + t, lo=0, hi=20) + b'\0\0'; raw = v
        d = raw + b'\0'
        want = d if f.name == b'Data' else raw.rstrip(b'\0')
        return v, W.uint(len(d), f.size) + d, lambda name, got: W.same(name, got, want)
    v, vs = xfield.value(W, ty, 'v' + t)
    b = xfield.wire(W, ty, vs)
    return v, b, lambda name, got: xfield.check(W, name, ty, got, xfield.read(W, ty, b))

class Sent(object):
    """a message that fits the template m, its bytes and what is received"""
    def __init__(self, W, m, t='', many=True):
        self.m = m; self.W = W
        M = B + 'message.message'
        Message, Block, Variable = W.imp(M, 'Message'), W.imp(M, 'Block'), W.imp(M, 'Variable')
        self.parts = []         # the bytes after the number, piece by piece
        self.blocks = []        # (name, [[(field name, check)]])
        args = []
        self.optional = []
        for i, b in enumerate(m.blocks):
            u = '%s b%d' % (t, i)
            if b.kind == b'Single': n = 1
            elif b.kind == b'Multiple': n = b.count
            else:
                n = W.choice('repeats' + u, [0, 1, 2, 3, 1, 2, 255 if many and len(b.fields) < 2 else 4])
                self.parts.append(W.byte(n))
            reps = []; given = []
            for r in range(n):
                fs = []; kw = []
                for j, f in enumerate(b.fields):
                    v, raw, chk = value(W, f, '%s r%d f%d' % (u, r, j))
                    self.parts.append(raw); fs.append((f.name, chk)); kw.append((f.name, v))
                reps.append(fs)
                x = Block(b.name)
                # the order in which fields are given does not matter
                if W.bool('backwards' + u): kw.reverse()
                for k, v in kw: x.add_variable(Variable(k, v, None))
                given.append(x)
            self.blocks.append((b.name, reps))
            args.append((b.name, given))
        if W.bool('blocks in another order' + t): args.reverse()
        self.args = args
        self.message = Message(m.name, *[l for n, l in args])
        for n, l in args:
            if not l: self.message.blocks.setdefault(n, [])
        self.body = W.cat(*([b''] + self.parts))
        if m.name == b'RegionHandshakeReply': self.pad = b'\0\0\0\0'
        else: self.pad = b''
        self.payload = m.number(W) + self.body
    def check(self, name, got):
        """got: the decoded message"""
        W = self.W
        W.check(name + ': name', got.name == self.m.name)
        have = [(n, reps) for n, reps in self.blocks if reps]
        W.check(name + ': blocks', sorted(got.blocks) == sorted([n for n, r in have]), '%r %r' % (sorted(got.blocks), [n for n, r in have]))
        for n, reps in have:
            l = got.blocks[n]
            W.check('%s: repetitions of %s' % (name, n), len(l) == len(reps), '%d, not %d' % (len(l), len(reps)))
            for k, (x, fs) in enumerate(zip(l, reps)):
                W.check('%s: %s is number %d' % (name, n, k), x.block_number == k)
                W.check('%s: fields of %s' % (name, n), x.var_list == [f for f, c in fs] and sorted(x.vars) == sorted([f for f, c in fs]), repr((x.var_list, [f for f, c in fs])))
                for f, c in fs: c('%s: %s.%s' % (name, n, f), x.vars[f].data)
        return have
