# the shipped templates, as the parser gives them (C08)
from xread import *
from xenc import SE

_ship = {}
def shipped(W):
    if not _ship:
        names = {}
        for t in xfield.ORDER: names[xfield.code(W, t)] = t
        s = W.call(W.imp(SE, 'UDPMessageSerializer'))
        td = s.template_dict
        msgs = []
        for name in sorted(td.message_templates):
            t = td.message_templates[name]
            if not s.message_xml.validate_udp_msg(name): continue
            bl = [Blk(b.name, xtpl.KINDS[b.block_type], b.number if b.block_type == 1 else 0, [Field(v.name, names[v.type], v.size) for v in b.variables]) for b in t.blocks]
            f = [k for k, c in xtpl.CLASSES.items() if c == t.frequency][0]
            msgs.append(Msg(name, f, t.msg_num, t.msg_num + (0xffffff00 if f == b'Fixed' else 0), None, None, None, bl))
        h = W.stub(is_message_handled=W.fn(lambda n: True))
        d = W.call(W.imp(DE, 'UDPMessageDeserializer'), h, xdec.settings(W))
        _ship['all'] = (s, d, msgs)
    return _ship['all']
