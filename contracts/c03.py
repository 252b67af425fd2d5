from vc import unit
from xenc import *

@unit('C03', 'Any message under any template has the layout of the template', funs=FUNS, mode='sym', weight=3)
def layout(W):
    a = Anything(W)
    s = generic(W, a)
    flags = W.int('flags', 0, 255); pid = seqno(W, 'id')
    W.set(a.message, 'send_flags', flags); W.set(a.message, 'packet_id', pid)
    acks = W.seq('ack', lambda i: seqno(W, 'ack'), 0, 255)
    W.set(a.message, 'acks', W.arg(acks))
    got = W.do(s, 'serialize', a.message)
    want = W.cat(W.byte(flags), W.uint(pid, 4, True), b'\0', a.number, layout_of(W, a))
    if W.true(W.eq(a.name, b'RegionHandshakeReply')): want = W.cat(want, b'\0\0\0\0')
    if W.true(W.eq(W.mod(W.div(flags, 16), 2), 1)):
        want = W.cat(want, W.join(acks, lambda x: W.uint(x, 4, True)), W.byte(W.len(W.arg(acks))))
    W.same('layout', got, want)
    other = W.name('unknown name')
    W.assume(W.no(W.eq(other, a.name)))
    W.check('a name in no template gives no bytes', W.is_none(W.do(s, 'serialize', W.call(W.imp(B + 'message.message', 'Message'), other))))

@unit('C03', 'A block with the wrong number of repetitions is an error', funs=FUNS, mode='sym')
def mismatch(W):
    a = Anything(W, strict=False)
    s = generic(W, a)
    W.set(a.message, 'acks', W.lst([]))
    W.set(a.message, 'send_flags', 0)
    k = W.index('bad block', W.len(W.arg(a.blocks)))
    b = W.nth(a.blocks, k)
    W.assume(W.all(W.eq(W.get(b, 'block_type'), MULTIPLE), W.no(W.eq(W.get(b, 'number'), W.len(W.item(a.map, W.get(b, 'name')))))))
    r = W.tryto(s, 'serialize', a.message)
    W.look(k)
    W.check('an error', not r.ok, r)
    W.raises('the documented error', r, 'MessageSerializationError')

@unit('C03', 'A missing block is an error', funs=FUNS, mode='sym')
def no_block(W):
    a = Anything(W, strict=False, total=False)
    s = generic(W, a)
    W.set(a.message, 'send_flags', 0)
    k = W.index('bad block', W.len(W.arg(a.blocks)))
    W.assume(W.no(W.haskey(a.map, W.get(W.nth(a.blocks, k), 'name'))))
    r = W.tryto(s, 'serialize', a.message)
    W.look(k)
    W.check('an error', not r.ok, r)

def only_whole(W, **what):
    """(outcome): bytes are given only if nothing is wrong with any field"""
    a = Anything(W, **what)
    s = generic(W, a)
    W.set(a.message, 'acks', W.lst([]))
    W.set(a.message, 'send_flags', 0); W.set(a.message, 'packet_id', 1)
    r = W.tryto(s, 'serialize', a.message)
    if r.ok:
        want = W.cat(b'\0\0\0\0\1\0', a.number, layout_of(W, a))
        if W.true(W.eq(a.name, b'RegionHandshakeReply')): want = W.cat(want, b'\0\0\0\0')
        W.same('every field is there and of a known width', r.value, want)
    return r

@unit('C03', 'A missing field is an error', funs=FUNS, mode='sym', weight=3)
def no_field(W):
    only_whole(W, fields=False)

@unit('C03', 'An unsupported width is an error', funs=FUNS, mode='sym', weight=3)
def no_width(W):
    r = only_whole(W, widths=False)
    if not r.ok: W.raises('the documented error', r, 'MessageSerializationError')

def any_encoder(W, msgs):
    return xdec.encoder(W, xtpl.text(W, msgs))

def expected(W, s, flags, pid, acks):
    r = W.cat(W.byte(flags), W.uint(pid, 4, True), b'\0', s.payload, s.pad)
    if flags & ACK: r += b''.join([W.uint(a, 4, True) for a in acks]) + W.byte(len(acks))
    return r

@unit('C03', 'Messages of drawn templates have the layout written in the template', funs=[S_ + 'serialize', S_ + 'build_block'], mode='conc', runs=300, weight=2,
      bounded='drawn templates of up to 3 messages, 4 blocks each with up to 5 fields, sequences of up to 5 messages')
def drawn(W):
    msgs = xtpl.draw(W)
    s = any_encoder(W, msgs)
    for k in range(W.int('sends', 1, 5)):
        t = ' %d' % k
        m = W.choice('which' + t, msgs)
        x = xtpl.Sent(W, m, t)
        flags = W.choice('flags' + t, [0, RELIABLE, 0x20, ACK, ACK | RELIABLE])
        pid = seqno(W, 'id' + t)
        acks = [seqno(W, 'ack %d%s' % (i, t)) for i in range(W.choice('acks' + t, [1, 2, 255, 3]))] if flags & ACK else []
        x.message.send_flags = flags; x.message.packet_id = pid; x.message.acks = acks
        again = W.bool('again' + t)
        for i in range(2 if again else 1):
            r = W.tryto(s, 'serialize', x.message)
            W.check('no error', r.ok, repr(r.exc))
            W.same('layout', r.value, expected(W, x, flags, pid, acks))
        what = W.choice('next' + t, ['nothing', 'unknown', 'missing block', 'missing field', 'count'])
        if what == 'unknown':
            W.check('an unknown message gives no bytes', W.do(s, 'serialize', W.call(W.imp(B + 'message.message', 'Message'), b'NoSuchMessage')) is None)
        elif what != 'nothing': bad(W, s, m, x, what, t)

def bad(W, s, m, x, what, t):
    y = x.message
    names = [n for n in sorted(y.blocks)]
    if what == 'missing block':
        if not names: return
        del y.blocks[W.choice('dropped' + t, names)]
    elif what == 'missing field':
        bs = [b for b in m.blocks if b.fields and y.blocks[b.name]]
        if not bs: return
        b = W.choice('block' + t, bs)
        r = W.choice('of' + t, y.blocks[b.name])
        del r.vars[W.choice('field' + t, [f.name for f in b.fields])]
    else:
        bs = [b for b in m.blocks if b.kind == b'Multiple']
        if not bs: return
        b = W.choice('block' + t, bs)
        l = y.blocks[b.name]
        if W.bool('too few' + t): l.pop()
        else: l.append(l[0])
    r = W.tryto(s, 'serialize', y)
    W.check(what + ' is an error', not r.ok, repr(r.value))
    if what == 'count': W.check('the documented error', 'MessageSerializationError' in r.names, r.names)

import xhist
xhist.register('C03')
