# C04 for any template
from vc import unit
from xread import *
from xgen import *

def expected(W, a, which):
    def field(b, r, v, f):
        pos, n = a.sized(f, a.F.at((b, r), v))
        t = W.get(f, 'type')
        x = decoded(W, a, t, pos, n)
        if W.true(W.eq(t, a.variable)) and not W.true(W.eq(W.get(f, 'name'), b'Data')): x = W.call(W.get(x, 'rstrip'), b'\0')
        return (W.get(f, 'name'), t, x)
    def block(b):
        x = W.nth(a.blocks, b)
        return W.ljoin(a.reps(b, a.P.at((), b)), lambda r: W.lcat(
            W.lst([(W.get(x, 'name'), r, which)]),
            W.upto(W.len(W.get(x, 'variables')), lambda v: field(b, r, v, W.nth(W.get(x, 'variables'), v)))))
    return W.ljoin(W.len(W.arg(a.blocks)), block)


def read_log(W, a, d, buf):
    """decodes; (outcome, what is added to the message, the number of the message it is added to)"""
    log = W.log()
    cur = W.cell(block=None)
    made = [0]
    def init(args, k):
        m = args[0]
        W.set(m, 'name', args[1]); W.set(m, 'size', 0)
        made[0] += 1
        W.set(m, 'blocks', W.pairs([(b'some', made[0])])); W.set(m, 'which', made[0])
    def add_block(args, k):
        W.set(cur, 'block', args[1])
        W.note(log, W.get(args[1], 'name'), W.get(args[1], 'block_number'), W.get(args[0], 'which'))
    def add_variable(args, k):
        W.check('fields go to the block read last', W.same_obj(args[0], W.get(cur, 'block')))
        v = args[1]
        W.check('what does not fit is not read', a.last <= a.end)
        W.note(log, W.get(v, 'name'), W.get(v, 'var_type'), W.get(v, 'data'))
    W.contract(T + '.MsgData.__init__', init)
    W.contract(T + '.MsgData.add_block', add_block)
    W.contract(T + '.MsgBlockData.add_variable', add_variable)
    return W.tryto(d, 'deserialize', buf), log

def body(W, case, whole):
    a = AnyTemplate(W, whole)
    d, buf = plain(W, a, case)
    r, log = read_log(W, a, d, buf)
    if whole: W.check('a message', W.all(r.ok, W.no(W.is_none(r.value))), r)
    elif r.ok and not W.true(W.is_none(r.value)):
        W.same('what is added to the message', log, expected(W, a, W.item(W.get(r.value, 'blocks'), b'some')))

for _n, _c in CASES:
    def _f(W, c=_c): body(W, c, True)
    unit('C04', 'A complete datagram of any template gives a message (%s its number)' % _n, funs=FUNS, mode='sym', weight=3)(_f)
    def _f(W, c=_c): body(W, c, False)
    unit('C04', 'A message is what the template says, whatever it is (%s its number)' % _n, funs=FUNS, mode='sym', weight=4)(_f)
