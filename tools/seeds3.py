BUGS = [
 dict(id='c28-whole', property='C28', needs='a datagram of more than 1500 bytes',
  breaks='what is longer than an Ethernet frame is cut when it is received',
  edits=[('network/net.py', '        buf = 10000\n', '        buf = 1500\n')],
  demo='''
from lib import *
from pyogp.lib.base.network.net import NetUDPClient
class Sock(object):
    def __init__(self, data): self.data = data
    def recvfrom(self, n): return self.data[:n], ('10.0.0.1', 13000)
for n in (1, 1200, 1500, 1501, 4000, 9000):
    data, size = NetUDPClient().receive_packet(Sock('x' * n))
    same('a datagram of %d bytes' % n, (len(data), size), (n, n))
'''),
 dict(id='c03-skip', property='C03', needs='a block with several repetitions, one of which lacks a field',
  breaks='a field that is missing in one of several repetitions is left out silently',
  edits=[('message/udpserializer.py', '                variable = block.get_variable(v.name)\n', '                if block_count > 1 and v.name not in block.vars:\n                    continue\n                variable = block.get_variable(v.name)\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
def err(*blocks):
    try: UDPMessageSerializer().serialize(message('PacketAck', *blocks))
    except Exception: return True
    return False
same('all there', err(block('Packets', ID=1), block('Packets', ID=2)), False)
same('one lacks its only field', err(block('Packets')), True)
same('the second lacks it', err(block('Packets', ID=1), block('Packets')), True)
'''),
 dict(id='c04-rep', property='C04', needs='a variable block with more than 128 repetitions',
  breaks='the number of a repetition wraps at 128',
  edits=[('message/udpdeserializer.py', '                block_data.block_number = i\n', '                block_data.block_number = i & 127\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.settings import Settings
h = MessageHandler(Settings(quiet_logging=True)); h.register('PacketAck')
d = UDPMessageDeserializer(h, Settings(quiet_logging=True))
m = d.deserialize('\\0\\0\\0\\0\\1\\0\\xff\\xff\\xff\\xfb' + chr(200) + ''.join([chr(i) + '\\0\\0\\0' for i in range(200)]))
same('numbers', [b.block_number for b in m.blocks['Packets']], range(200))
same('values', [b.vars['ID'].data for b in m.blocks['Packets']], range(200))
'''),
 dict(id='c04-end', property='C04', needs='a datagram whose last field is a variable field of length 0',
  breaks='a datagram that ends with an empty variable field gives no message',
  edits=[('message/udpdeserializer.py', '                        if (decode_pos + data_size) > templen:\n', '                        if (decode_pos + data_size) >= templen:\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings
class All(object):
    def is_message_handled(self, n): return True
T = """version 2.0
{
\\tTiny High 1 NotTrusted Unencoded
\\t{
\\t\\tOnly\\tSingle
\\t\\t{\\tA\\tU8\\t}
\\t\\t{\\tB\\tVariable\\t1\\t}
\\t}
}
"""
d = UDPMessageDeserializer(All(), Settings(quiet_logging=True), message_template=Lines(T))
for b, want in (('\\5\\2ab', 'ab'), ('\\5\\1a', 'a'), ('\\5\\0', '')):
    m = d.deserialize('\\0\\0\\0\\0\\1\\0\\1' + b)
    same('a message', m is not None, True)
    same('its fields', (m.blocks['Only'][0].vars['A'].data, m.blocks['Only'][0].vars['B'].data), (5, want))
'''),
]
