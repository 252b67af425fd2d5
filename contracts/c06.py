from vc import unit
from xread import *
from xship import shipped
import xhist
FUNS = [D_ + 'deserialize', D_ + '__decode_data', D_ + '__validate_message', D_ + '__decode_template', D_ + '__decode_header', D_ + '__decode_frequency', D_ + '__decode_num',
        D_ + 'zero_code_expand', B + 'message.data_unpacker.DataUnpacker.unpack_data']
LONGEST = 2 ** 16

@unit('C06', 'Expanding any bytes raises nothing', funs=[D_ + 'zero_code_expand'])
def expands(W):
    d = xdec.decoder(W)
    r = W.tryto(d, 'zero_code_expand', W.bytes('any'), W.int('length', 0))
    W.check('no error', r.ok, r)

def outcome(W, r):
    """only a message, None or the documented error"""
    if not r.ok: W.raises('the documented error', r, 'MessageDeserializationError')
    return r.ok and not W.true(W.is_none(r.value))

def flag(W, b, n): return W.true(W.eq(W.mod(W.div(b, n), 2), 1))

def plain(W, m):
    body = W.bytes('body')
    if W.sym and m.blocks and m.blocks[0].kind == b'Variable': body = W.cat(W.byte(W.choice('repetitions', [0, 1, 2])), body)
    extra = W.bytes('extra', lo=0, hi=255)
    return W.cat(W.byte(RELIABLE), W.uint(seqno(W, 'id'), 4, True), W.byte(W.blen(extra)), extra, b'\1', body)

def good(m):
    """a datagram of the template, and where its blocks start"""
    head = b'\x40\0\0\1\2\0\1'
    body = b''
    k = 64
    for b in m.blocks:
        n = {b'Single': 1, b'Multiple': b.count, b'Variable': 2}[b.kind]
        if b.kind == b'Variable': body += b'\2'
        for i in range(n):
            for f in b.fields:
                if f.type == 'MVT_VARIABLE': body += b'\2' + b'\0' * (f.size - 1)
                w = 2 if f.type == 'MVT_VARIABLE' else f.size
                for j in range(w): k += 1; body += bytes(bytearray([k]))
    return head + body, len(head)

def again(W, d, m):
    """a good datagram is read correctly, whatever came before it"""
    W.set(d, 'message_handler', W.stub(is_message_handled=W.fn(lambda n: True)))
    W.set(d, 'message_xml', W.stub(validate_udp_msg=W.fn(lambda n: True)))
    data, at = good(m)
    r = W.tryto(d, 'deserialize', data)
    W.check('the datagram after it: a message', W.all(r.ok, W.no(W.is_none(r.value))), r)
    check_header(W, 'the datagram after it', r.value, m, 64, 258, [])
    check_blocks(W, 'the datagram after it', r.value, read(W, m, data, at))

def any_bytes(W, m, choosy):
    """whatever arrives at a decoder that knows the template m"""
    d = one_template(W, m)
    wanted = allowed = deferred = True
    if choosy:
        wanted = W.bool('somebody is interested'); allowed = W.bool('may travel over UDP')
        W.set(d, 'message_handler', W.stub(is_message_handled=W.fn(lambda n: wanted)))
        W.set(d, 'message_xml', W.stub(validate_udp_msg=W.fn(lambda n: allowed)))
        deferred = W.bool('unwanted messages are not parsed')
        W.set(W.get(d, 'settings'), 'ENABLE_DEFERRED_PACKET_PARSING', deferred)
    data = W.bytes('data') if choosy else plain(W, m)
    n = W.blen(data)
    body = None
    if W.sym:
        body = W.bytes('expanded')
        W.contract(D_ + 'zero_code_expand', lambda a, k: body)
    r = W.tryto(d, 'deserialize', data)
    got = outcome(W, r)
    none = r.ok and not got
    again(W, d, m)
    if W.true(n < 7):
        W.check('a truncated header gives no message', not got)
        W.check('a truncated header is an error', not r.ok)
        return
    t = trailer(W, data)
    if t is None:
        W.check('acks that do not fit give no message', not got)
        W.check('acks that do not fit are an error', not r.ok)
        return
    buf, acks = t
    if flag(W, W.at(buf, 0), 128):
        if body is None: return
        e = W.at(buf, 5)
        if not W.true(6 + e <= W.blen(buf)):
            return              # the extra header runs past the end (checked with drawn datagrams)
        buf = W.cat(W.sub(buf, 0, 6 + e), body)
    at = 6 + W.at(buf, 5)
    if not W.true(at < W.blen(buf)):
        W.check('no message number gives no message', not got)
        return
    num = W.at(buf, at)
    if W.true(W.eq(num, 1)):
        want = read(W, m, buf, at + 1)
        W.check('a field that does not fit gives no message', want is not None or not got)
        W.check('what nobody may have gives no message', not got or W.all(allowed, W.any(wanted, W.no(deferred))))
    else:
        W.check('an unknown number gives no message', not got)

for _n, _m in SHAPES:
    def _f(W, m=_m, n=_n): any_bytes(W, m, n == 'none')
    unit('C06', 'Any bytes at a decoder that knows %s' % _n if _n == 'none' else 'Any body of a message with %s' % _n, funs=FUNS, runs=300, weight=3,
         bounded='one template; variable blocks up to 2 repetitions; any bytes' if _n == 'variable' else 'one template; any bytes after the header')(_f)

def reference(W, msgs, data):
    """'error', None (no message), 'unclear', or (template, flags, number, acks, blocks): what a datagram says"""
    if len(data) < 7: return 'error'
    t = trailer(W, data)
    if t is None: return 'error'
    buf, acks = t
    flags = ord(data[0])
    if flags & ZERO:
        at = 6 + ord(buf[5])
        coded = buf[at:]; plain = ''; i = 0
        while i < len(coded):
            if coded[i] != '\0': plain += coded[i]; i += 1; continue
            if i + 1 == len(coded) or coded[i + 1] == '\0': return 'unclear'
            plain += '\0' * ord(coded[i + 1]); i += 2
        buf = buf[:at] + plain
    at = 6 + ord(buf[5])
    for m in msgs:
        num = m.number(W)
        if buf[at:at + len(num)] == num: break
    else:
        return None
    if m.freq == b'High' and num == b'\xff': return 'unclear'
    at += len(num)
    blocks = read(W, m, buf, at)
    if blocks is None: return 'error or none'
    if m.blocks and not [1 for n, l in blocks if l]: return 'error'
    return m, flags, W.toint(W.sub(data, 1, 5), 4, True), acks, blocks

def decode(W, d, msgs, data, name):
    r = W.tryto(d, 'deserialize', data)
    got = outcome(W, r)
    want = reference(W, msgs, data)
    if want == 'error': W.check(name + ': an error', not r.ok, repr((r, data)))
    elif want is None or want == 'error or none': W.check(name + ': no message', not got, repr((r, data)))
    elif want != 'unclear':
        W.check(name + ': a message', got, repr((r, data)))
        m, flags, pid, acks, blocks = want
        check_header(W, name, r.value, m, flags, pid, acks)
        check_blocks(W, name, r.value, blocks)

def damaged(W, data, t):
    for i in range(W.int('damages' + t, 0, 3)):
        u = '%s.%d' % (t, i)
        how = W.choice('how' + u, ['cut', 'flip', 'flip', 'insert', 'drop', 'flags', 'count', 'extra', 'zero', 'number'])
        if how == 'cut': data = data[:W.int('to' + u, 0, len(data))]
        elif how == 'flip' and data:
            k = W.int('at' + u, 0, len(data) - 1); data = data[:k] + chr(W.int('byte' + u, 0, 255)) + data[k + 1:]
        elif how == 'insert':
            k = W.int('at' + u, 0, len(data)); data = data[:k] + W.bytes('bytes' + u, lo=0, hi=9) + data[k:]
        elif how == 'drop' and data:
            k = W.int('at' + u, 0, len(data) - 1); data = data[:k] + data[k + W.int('n' + u, 1, 9):]
        elif how == 'flags' and data: data = chr(W.int('flags' + u, 0, 255)) + data[1:]
        elif how == 'count' and data: data = data[:-1] + chr(W.int('byte' + u, 0, 255))
        elif how == 'extra' and len(data) > 6: data = data[:5] + chr(W.int('byte' + u, 0, 255)) + data[6:]
        elif how == 'number' and len(data) > 6: data = data[:6] + W.choice('number' + u, [b'\xff', b'\xff\xff', b'\xff\xff\xff', b'\xff\xff\xff\x00', b'\xff\x00', b'\x00', b'\xff\xff\x00\x00', b'\xff\xff\xff\xff']) + data[W.choice('over' + u, [6, 7, 8, 10, 99]):]
    return data

def wire(W, msgs, t):
    x = xtpl.Sent(W, W.choice('which' + t, msgs), t)
    zc = W.bool('zero-coded' + t) and len(x.payload) < 3000
    acks = [seqno(W, 'ack %d%s' % (i, t)) for i in range(W.choice('acks' + t, [0, 1, 2, 255, 3]))] if W.bool('acked' + t) else None
    extra = W.bytes('extra' + t, lo=0, hi=255) if W.bool('extra header' + t) else b''
    flags = W.choice('flags' + t, [0, RELIABLE, 0x20]) | (zc and ZERO) | (acks is not None and ACK)
    data = W.cat(W.byte(flags), W.uint(seqno(W, 'id' + t), 4, True), W.byte(len(extra)), extra, xhist.zero_code(x.payload) if zc else x.payload)
    if acks is not None: data += b''.join([W.uint(a, 4, True) for a in acks]) + W.byte(len(acks))
    return data

@unit('C06', 'Damaged datagrams of drawn templates fail safely', funs=FUNS, mode='conc', runs=800, weight=3, bounded='drawn templates and datagrams with up to 3 damages, sequences of up to 6')
def drawn(W):
    msgs = xtpl.draw(W)
    d = xdec.decoder(W, xtpl.text(W, msgs))
    for k in range(W.int('datagrams', 1, 6)):
        t = ' %d' % k
        decode(W, d, msgs, damaged(W, wire(W, msgs, t), t) if W.int('noise' + t, 0, 4) else W.bytes('noise bytes' + t), 'datagram %d' % k)

@unit('C06', 'Damaged datagrams of shipped templates fail safely', funs=FUNS, mode='conc', runs=300, weight=2, bounded='drawn messages of the shipped template with up to 3 damages')
def shipped_ones(W):
    s, d, msgs = shipped(W)
    allowed = dict((m.name, m) for m in msgs)
    two = [msgs[(2 * W.seed + i) % len(msgs)] for i in range(2)]
    for k in range(2):
        t = ' %d' % k
        data = damaged(W, wire(W, [two[k]], t), t)
        decode(W, d, msgs, data, 'datagram %d' % k)
        data = wire(W, two, t + ' good')
        decode(W, d, msgs, data, 'datagram after %d' % k)

xhist.register('C06')
