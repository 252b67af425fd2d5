# C06 for any template: whatever the body of a datagram, only a message, None or the documented error
from vc import unit
from xread import *
import xgen
from xgen import AnyTemplate, T, FUNS, ASSUMPTIONS

def any_body(W, case):
    a = AnyTemplate(W, False)
    d, buf = xgen.plain(W, a, case, True)
    for c in ('MsgData.add_block', 'MsgBlockData.add_variable'): W.contract(T + '.' + c, lambda x, k: None)
    r = W.tryto(d, 'deserialize', buf)
    if not r.ok: W.raises('the documented error', r, 'MessageDeserializationError')

for _n, _c in xgen.CASES:
    def _f(W, c=_c): any_body(W, c)
    unit('C06', 'Any body of a datagram of any template (%s its number)' % _n, funs=FUNS, mode='sym', weight=3)(_f)
