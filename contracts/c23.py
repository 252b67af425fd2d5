from vc import unit
B = 'pyogp.lib.base.'
M = B + 'message.message'
T = B + 'message.template'
L = B + 'message.llsd_builder'
BLOCKS = [b'Alpha', b'Beta', b'Gamma']
VARS = [b'ID', b'Name', b'data', b'Value']

def value(W, name):
    if W.sym: return W.opaque(name, False)
    kind = W.choice(name + ' kind', ['any', 'false', 'bytes'])
    if kind == 'any': return W.opaque(name)
    if kind == 'bytes': return W.bytes(name)
    return W.choice(name + ' false', [None, 0, b'', False])

def bname(W, t, more=()):
    return W.name('block' + t) if W.sym else W.choice('block' + t, BLOCKS + list(more))

def fields(W, t, k):
    """up to k fields with different names"""
    names = [v for v in VARS[:k] if W.bool('has %s%s' % (v.decode('ascii'), t))]
    if W.bool('turned' + t): names.reverse()
    return [(v, value(W, '%s%s' % (v.decode('ascii'), t))) for v in names]

def block(W, name, t, k=2):
    fs = fields(W, t, k)
    return W.call(W.imp(M, 'Block'), name, **dict([(n.decode('ascii'), v) for n, v in fs])), name, fs

def given(W, groups, k=2):
    """arguments of a message: blocks and lists of blocks"""
    args, all = [], []
    for i in range(groups):
        t = ' %d' % i
        how = W.choice('given' + t, ['one', 'list', 'empty'])
        if how == 'one':
            b = block(W, bname(W, t), t, k); args.append(b[0]); all.append(b)
        else:
            n = 0 if how == 'empty' else W.choice('repetitions' + t, [1, 2])
            l = [block(W, bname(W, '%s %d' % (t, j)), '%s %d' % (t, j), k) for j in range(n)]
            args.append(W.lst([b[0] for b in l])); all.extend(l)
    return args, all

def grouped(W, all):
    out = []
    for b in all:
        for g in out:
            if W.true(W.eq(g[0], b[1])): g[1].append(b); break
        else: out.append((b[1], [b]))
    return out

def check_message(W, m, name, all):
    W.check('name', W.eq(W.get(m, 'name'), name))
    gs = grouped(W, all)
    W.is_dict('blocks', W.get(m, 'blocks'), [(n, W.lst([b[0] for b in l])) for n, l in gs])
    for n, l in gs:
        got = W.do(m, 'get_block', n)
        W.same('blocks of a name', got, W.lst([b[0] for b in l]))
        W.same('blocks of a name, by subscription', W.do(m, '__getitem__', n), W.lst([b[0] for b in l]))
        for i, (b, _, fs) in enumerate(l):
            x = W.item(got, i)
            W.check('the same block', W.same_obj(x, b))
            check_block(W, x, fs)
        for v, x in l[0][2]: W.same('first value', W.get(W.do(m, 'get_var', n, v), 'data'), x)

def check_block(W, b, fs):
    W.check('number of fields', W.eq(W.len(W.get(b, 'vars')), len(fs)))
    W.check('number of field names', W.eq(W.len(W.get(b, 'var_list')), len(fs)))
    for v, x in fs:
        W.same('value', W.do(b, '__getitem__', v), x)
        W.same('variable', W.get(W.do(b, 'get_variable', v), 'data'), x)
        W.check('name of a field', W.eq(W.get(W.do(b, 'get_variable', v), 'name'), v))
    for v in VARS:
        if v not in [f[0] for f in fs]:
            W.raises('no other field', W.tryto(b, 'get_variable', v), 'KeyError')

def body(W, all):
    return [(n, W.lst([W.pairs(b[2]) for b in l])) for n, l in grouped(W, all)]

MSG = M + '.Message.'
FUNS = [MSG + '__init__', M + '.MessageBase.parse_blocks', M + '.Block.__init__', M + '.Block.__parse_vars', T + '.MsgData.add_block', T + '.MsgData.get_block', T + '.MsgBlockData.add_variable', T + '.MsgBlockData.get_variable']

@unit('C23', 'A message holds the blocks it is built from', funs=FUNS, runs=600, weight=2, bounded='up to 2 arguments of up to 2 repetitions with 1 field each in the prover, 5 with 4 outside; values arbitrary')
def holds(W):
    n, k = (2, 1) if W.sym else (W.int('arguments', 0, 5), 4)
    args, all = given(W, n, k)
    name = W.name('name')
    m = W.call(W.imp(M, 'Message'), name, *args)
    check_message(W, m, name, all)
    if not W.sym: late(W, m, name, all)

def late(W, m, name, all):
    """a block that is added later"""
    for i in range(W.int('late', 0, 2)):
        b = block(W, W.choice('late block %d' % i, BLOCKS), ' late %d' % i, 4)
        W.do(m, 'add_block', b[0])
        all.append(b)
        check_message(W, m, name, all)

@unit('C23', 'A block given to a message is added after those of its name', funs=FUNS, runs=300)
def added(W):
    """to a message with any number of blocks of a name"""
    m = W.call(W.imp(M, 'Message'), W.name('name'))
    n1 = W.name('first'); n2 = W.name('second')
    old = W.list('old', lambda i: W.opaque('block'), 1)
    had = W.lcat(old)
    if W.bool('has one'):
        W.set(m, 'blocks', W.pairs([(n1, old)]))
        other = W.no(W.eq(n1, n2))
        b = W.call(W.imp(M, 'Block'), n2)
        W.do(m, 'add_block', b)
        if W.true(other):
            W.same('the others', W.do(m, 'get_block', n1), had)
            W.same('the new one', W.do(m, 'get_block', n2), W.lst([b]))
        else:
            W.same('after the others', W.do(m, 'get_block', n1), W.lcat(had, W.lst([b])))
    else:
        b = W.call(W.imp(M, 'Block'), n2)
        W.do(m, 'add_block', b)
        W.same('the only one', W.do(m, 'get_block', n2), W.lst([b]))

@unit('C23', 'A list of blocks of any length is kept in order', funs=[M + '.MessageBase.parse_blocks', T + '.MsgData.add_block'], runs=200, mode='conc', bounded='random lists of up to 300 blocks')
def many(W):
    m = W.call(W.imp(M, 'Message'), W.name('name'))
    n1 = W.name('first'); n2 = W.name('second')
    W.assume(W.no(W.eq(n1, n2)))
    a = W.list('old', lambda i: W.opaque('block'), 1); b = W.list('others', lambda i: W.opaque('other block'), 1)
    had, others = W.lcat(a), W.lcat(b)
    W.set(m, 'blocks', W.pairs([(n1, a), (n2, b)]))
    new = W.list('new', lambda i: W.call(W.imp(M, 'Block'), n1), 0, 300)
    now = W.lcat(new)
    W.do(m, 'parse_blocks', W.arg((new,)))
    W.same('after the others', W.do(m, 'get_block', n1), W.lcat(had, now))
    W.same('the others', W.do(m, 'get_block', n2), others)

@unit('C23', 'A block keeps any field added to it', funs=[T + '.MsgBlockData.add_variable', T + '.MsgBlockData.get_variable', T + '.MsgBlockData.__getitem__'], runs=300)
def keeps(W):
    """to a block with any fields: the new one is there, the others stay"""
    b = W.call(W.imp(M, 'Block'), W.name('name'))
    have = W.mapping('fields', lambda i: W.name('field'), lambda k: W.stub(data=W.opaque('value')), sized=False)
    names = W.list('names', lambda i: W.name('listed'))
    W.set(b, 'vars', have); W.set(b, 'var_list', names)
    before = W.lcat(names)
    new = W.name('new'); other = W.name('other')
    W.assume(W.no(W.eq(new, other)))
    was = W.true(W.haskey(have, other))
    old = W.item(have, other) if was else None
    x = W.opaque('new value', False)
    v = W.call(W.imp(M, 'Variable'), new, x)
    W.do(b, 'add_variable', v)
    W.check('the new variable', W.same_obj(W.do(b, 'get_variable', new), v))
    W.check('its value', W.same_obj(W.do(b, '__getitem__', new), x))
    W.same('its name is listed last', W.get(b, 'var_list'), W.lcat(before, W.lst([new])))
    W.check('another field is there iff it was', W.eq(W.haskey(W.get(b, 'vars'), other), was))
    if was: W.check('the other field', W.same_obj(W.do(b, 'get_variable', other), old))

@unit('C23', 'The dict and LLSD forms list every block', funs=[MSG + 'to_dict', MSG + 'to_llsd'], runs=500, weight=2, bounded='up to 2 arguments of up to 2 repetitions with 1 field each in the prover, 5 with 4 outside; values arbitrary')
def exported(W):
    n, k = (2, 1) if W.sym else (W.int('arguments', 0, 5), 4)
    args, all = given(W, n, k)
    name = W.name('name')
    m = W.call(W.imp(M, 'Message'), name, *args)
    def ok(d):
        W.check('form', W.eq(W.len(d), 2))
        W.same('message', W.item(d, b'message'), name)
        W.is_dict('body', W.item(d, b'body'), body(W, all))
    ok(W.do(m, 'to_dict'))
    made = W.log()
    W.patch('llbase.llsd', 'format_xml', W.fn(lambda d: (W.note(made, d), b'text')[1]))
    W.check('the text', W.eq(W.do(m, 'to_llsd'), b'text'))
    W.check('one form', W.len(made) == 1)
    ok(W.item(made, 0))
    if not W.sym:
        ok(W.do(m, 'to_dict'))
        check_message(W, m, name, all)

BU = L + '.LLSDMessageBuilder.'
@unit('C23', 'The LLSD builder lists every block', funs=[BU + 'build_message', BU + 'new_message', BU + 'next_block', BU + 'add_data'], runs=500, weight=2, bounded='up to 3 blocks with up to 1 field each in the prover, 8 with 4 outside; values arbitrary')
def built(W):
    b = W.call(W.imp(L, 'LLSDMessageBuilder'))
    for round in range(2 if not W.sym and W.bool('twice') else 1):
        r = ' of %d' % round
        W.do(b, 'new_message', W.name('message' + r))
        all = []
        for i in range(W.choice('blocks' + r, [0, 1, 2, 3]) if W.sym else W.int('blocks' + r, 0, 8)):
            t = ' %d%s' % (i, r)
            name = bname(W, t)
            W.do(b, 'next_block', name)
            fs = fields(W, t, 1 if W.sym else 4)
            for v, x in fs: W.do(b, 'add_data', v, x, W.opaque('type' + t + v.decode('ascii')))
            all.append((None, name, fs))
            if not W.sym and W.bool('looked at' + t): W.do(b, 'build_message')
        msg, n = W.do(b, 'build_message')
        W.is_dict('form', msg, body(W, all))
        W.check('number of names', W.eq(n, len(grouped(W, all))))
