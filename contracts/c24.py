from vc import unit

M = 'pyogp.lib.base.settings'

# value by default, with quiet, with spammy alone
LOGGING = [('LOG_VERBOSE', True, False, True), ('ENABLE_BYTES_TO_HEX_LOGGING', False, False, True),
           ('ENABLE_CAPS_LOGGING', True, False, True), ('ENABLE_CAPS_LLSD_LOGGING', False, False, True),
           ('ENABLE_EQ_LOGGING', True, False, True), ('ENABLE_UDP_LOGGING', True, False, True),
           ('ENABLE_OBJECT_LOGGING', True, False, True), ('LOG_SKIPPED_PACKETS', True, False, True),
           ('ENABLE_HOST_LOGGING', True, False, True), ('LOG_COROUTINE_SPAWNS', True, False, True),
           ('DISABLE_SPAMMERS', True, True, False), ('PROXY_LOGGING', False, False, False)]
OTHER = [('HANDLE_PACKETS', True), ('HANDLE_OUTGOING_PACKETS', False), ('ENABLE_DEFERRED_PACKET_PARSING', True),
         ('ENABLE_REGION_EVENT_QUEUE', True), ('REGION_EVENT_QUEUE_POLL_INTERVAL', 1)]

@unit('C24', 'Settings: values for every combination of options', funs=[M + '.Settings.__init__'], runs=8)
def values(W):
    q = W.bool('quiet'); s = W.bool('spammy'); t = W.bool('log_tests')
    cls = W.imp(M, 'Settings')
    how = W.choice('arguments', ['positional', 'keyword', 'no tests', 'defaults'])
    if how == 'positional': S = W.call(cls, q, s, t)
    elif how == 'keyword': S = W.call(cls, spammy_logging=s, log_tests=t, quiet_logging=q)
    elif how == 'no tests': S = W.call(cls, q, s); t = True
    else: S = W.call(cls); q = False; s = False; t = True
    for n, d, qv, sv in LOGGING:
        W.check(n, W.eq(W.get(S, n), W.ite(q, qv, W.ite(s, sv, d))))
    for n, v in OTHER:
        W.check(n + ' does not depend on the logging options', W.eq(W.get(S, n), v))
    W.check('ENABLE_LOGGING_IN_TESTS', W.eq(W.get(S, 'ENABLE_LOGGING_IN_TESTS'), t))
    W.check('spammers', W.eq(W.get(S, 'UDP_SPAMMERS'), W.lst([b'PacketAck', b'AgentUpdate'])))

@unit('C24', 'Settings: objects share no mutable state', funs=[M + '.Settings.__init__'], runs=8)
def sharing(W):
    cls = W.imp(M, 'Settings')
    A = W.call(cls, W.bool('qa'), W.bool('sa'))
    B = W.call(cls, W.bool('qb'), W.bool('sb'))
    snap = W.snapshot(B)
    before = [W.get(B, n[0]) for n in LOGGING + OTHER]
    for n, d, qv, sv in LOGGING:
        W.set(A, n, W.bool('new_' + n))
    for n, v in OTHER:
        W.set(A, n, 17)
    W.do(W.get(A, 'UDP_SPAMMERS'), 'append', W.name('spammer'))
    W.unchanged('the other object', snap)
    for n, v in zip(LOGGING + OTHER, before):
        W.check(n[0] + ' of the other object', W.eq(W.get(B, n[0]), v))
    W.check('spammers of the other object', W.eq(W.get(B, 'UDP_SPAMMERS'), W.lst([b'PacketAck', b'AgentUpdate'])))
    C = W.call(cls)
    W.check('spammers of a later object', W.eq(W.get(C, 'UDP_SPAMMERS'), W.lst([b'PacketAck', b'AgentUpdate'])))
    for n, d, qv, sv in LOGGING:
        W.check(n[0:0] + n + ' of a later object', W.eq(W.get(C, n), d))
