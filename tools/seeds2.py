BUGS = [
 dict(id='c01-order', property='C01', needs='a value packed after one of the same type was packed with a byte order of its own',
  breaks='a byte order given for one value stays in force for all later values of that type',
  edits=[('message/data_packer.py', '                endian = endian_type\n', '                endian = endian_type\n                self.packer[data_type] = (endian, pack)\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.msgtypes import MsgType, EndianType
p = DataPacker()
same('before', p.pack_data(1, MsgType.MVT_U32), '\\1\\0\\0\\0')
same('with an order', p.pack_data(1, MsgType.MVT_U32, endian_type=EndianType.BIG), '\\0\\0\\0\\1')
same('after', p.pack_data(1, MsgType.MVT_U32), '\\1\\0\\0\\0')
'''),
 dict(id='c01-f32zero', property='C01', needs='a vector read at an offset that is not zero',
  breaks='a quaternion read at an offset takes its fourth component from what follows the buffer slice, so at an offset the wrong length decides whether W is rebuilt',
  edits=[('datatypes.py', '            t = 1.0 - (self.X*self.X + self.Y*self.Y + self.Z*self.Z)\n            if t > 0:\n', '            t = 1.0 - (self.X*self.X + self.Y*self.Y + self.Z*self.Z)\n            if t > 1e-4:\n')],
  demo='''
from lib import *
import struct
from pyogp.lib.base.message.data_unpacker import DataUnpacker
from pyogp.lib.base.message.msgtypes import MsgType
x = 0.99996
q = DataUnpacker().unpack_data(struct.pack('<3f', x, 0, 0), MsgType.MVT_LLQuaternion, 0)
w = (1 - q.X * q.X) ** 0.5
same('W', abs(q.W - w) < 1e-9, True)
'''),
 dict(id='c02-nul', property='C02', needs='a text value that ends with a NUL itself',
  breaks='a variable value that already ends with a NUL gets no terminator, so the receiver sees one byte less',
  edits=[('message/data_packer.py', '''            return pack_string + '\\x00'
''', '''            if pack_string.endswith('\\x00'): return pack_string
            return pack_string + '\\x00'
''')],
  demo='''
from lib import *
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.msgtypes import MsgType
p = DataPacker()
same('plain', p.pack_data('abc', MsgType.MVT_VARIABLE), 'abc\\0')
same('ends with NUL', p.pack_data('abc\\0', MsgType.MVT_VARIABLE), 'abc\\0\\0')
'''),
 dict(id='c03-order', property='C03', needs='a multiple block, together with a variable length of 2 bytes over 255',
  breaks='a two byte length is written in network order when it needs both bytes',
  edits=[('message/udpserializer.py', '                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U16)\n', '                        block_buffer += struct.pack(len(data) > 255 and ">H" or "<H", len(data))\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
s = UDPMessageSerializer()
n = 300
m = message('GenericMessage', block('AgentData', AgentID=uid(1), SessionID=uid(2), TransactionID=uid(3)), block('MethodData', Method='m', Invoice=uid(4)), block('ParamList', Parameter='x'))
d = s.serialize(m)
m = message('ChatFromViewer', block('AgentData', AgentID=uid(1), SessionID=uid(2)), block('ChatData', Message='x' * n, Type=1, Channel=0))
d = s.serialize(m)
same('length', d[10 + 32:10 + 34], chr((n + 1) % 256) + chr((n + 1) // 256))
'''),
 dict(id='c04-dataname', property='C04', needs='a variable field whose name ends with Data and whose value ends with NULs or not',
  breaks='variable fields whose name only ends with Data keep their trailing NULs',
  edits=[('message/udpdeserializer.py', "variable.name != 'Data'", "not variable.name.endswith('Data')")],
  demo='''
from lib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings
s = Settings(quiet_logging=True); s.ENABLE_DEFERRED_PACKET_PARSING = False
t = Lines('version 2.0\\n{\\nProbe Low 7 NotTrusted Unencoded\\n{\\nB Single\\n{ MoreData Variable 1 }\\n{ Data Variable 1 }\\n}\\n}\\n')
ser = UDPMessageSerializer(message_template=t); des = UDPMessageDeserializer(settings=s, message_template=t)
m = des.deserialize(ser.serialize(message('Probe', block('B', MoreData='a\\0', Data='b\\0'))))
same('fields', [m.blocks['B'][0].get_variable(x).data for x in ('MoreData', 'Data')], ['a', 'b\\0\\0'])
'''),
 dict(id='c05-count', property='C05', needs='a variable block repeated more than 127 times',
  breaks='a block repetition count over 127 is read as a negative number, so all repetitions are lost',
  edits=[('message/udpdeserializer.py', '''                repeat_count = self.unpacker.unpack_data(data, \\
                                                         MsgType.MVT_U8, \\
''', '''                repeat_count = self.unpacker.unpack_data(data, \\
                                                         MsgType.MVT_S8, \\
''')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings
s = Settings(quiet_logging=True); s.ENABLE_DEFERRED_PACKET_PARSING = False
m = message('AgentDropGroup', block('AgentData', AgentID=uid(1), GroupID=uid(2)))
ids = range(1, 201)
m = message('PacketAck', *[block('Packets', ID=i) for i in ids])
r = UDPMessageDeserializer(settings=s).deserialize(UDPMessageSerializer().serialize(m))
same('repetitions', [b.get_variable('ID').data for b in r.blocks['Packets']], ids)
'''),
 dict(id='c06-fixed', property='C06', needs='a datagram cut within a fixed width field',
  breaks='a datagram that ends within a fixed width field gives a message with a short value',
  edits=[('message/udpdeserializer.py', "                    if (decode_pos + var_size) > len(data):\n                        print var_size\n", "                    if (decode_pos + var_size) > len(data) and variable.type != MsgType.MVT_FIXED:\n                        print var_size\n")],
  demo='''
from lib import *
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base import exc
from pyogp.lib.base.settings import Settings
s = Settings(quiet_logging=True); s.ENABLE_DEFERRED_PACKET_PARSING = False
h = Lines('version 2.0\\n{\\nProbe Low 7 NotTrusted Unencoded\\n{\\nB Single\\n{ F Fixed 9 }\\n}\\n}\\n')
des = UDPMessageDeserializer(settings=s, message_template=h); ser = UDPMessageSerializer(message_template=h)
raw = ser.serialize(message('Probe', block('B', F='123456789')))
same('whole', des.deserialize(raw).blocks['B'][0].get_variable('F').data, '123456789')
try: r = des.deserialize(raw[:-1])
except exc.MessageDeserializationError: r = None
same('cut', r, None)
'''),
 dict(id='c07-extra', property='C07', needs='a zero-coded datagram with an extra header that holds a zero byte',
  breaks='the extra header of a zero-coded datagram is expanded too',
  edits=[('message/udpdeserializer.py', '            header = msg_buff[:6+offset]   #', '            header = msg_buff[:6]   #'), ('message/udpdeserializer.py', '            inputbuf = msg_buff[6+offset:]  #', '            inputbuf = msg_buff[6:]  #')],
  demo='''
from lib import *
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.settings import Settings
s = Settings(quiet_logging=True); s.ENABLE_DEFERRED_PACKET_PARSING = False
d = UDPMessageDeserializer(settings=s)
m = d.deserialize('\\x80' + '\\0\\0\\0\\1' + '\\3' + 'a\\0\\5' + '\\xff\\xff\\xff\\xfb' + '\\1' + '\\7\\0\\3')
same('ack', m.blocks['Packets'][0].get_variable('ID').data, 7)
'''),
 dict(id='c08-count', property='C08', needs='a multiple block with ten or more repetitions',
  breaks='only the first digit of the number of repetitions of a block is read',
  edits=[('message/template_parser.py', r"""        block_header_re = '.*?(\w+)\s+(\w+)(\s+(\d+))?.*'""", r"""        block_header_re = '.*?(\w+)\s+(\w+)(\s+(\d))?.*'""")],
  demo='''
from lib import *
from StringIO import StringIO
from pyogp.lib.base.message.template_parser import MessageTemplateParser
for n in (4, 12):
    p = MessageTemplateParser(Lines('version 2.0\\n{\\nProbe Low 7 NotTrusted Unencoded\\n{\\nB Multiple %d\\n{ F U8 }\\n}\\n}\\n' % n))
    same('repetitions', p.message_templates[0].blocks[0].number, n)
'''),
 dict(id='c09-case', property='C09', needs='a name that is no message but differs from one only in case',
  breaks='a name that no template was declared with gives the template whose name differs in case',
  edits=[('message/template_dict.py', '            return self.message_templates[template_name]\n', '            return self.message_templates[template_name]\n        for name in self.message_templates:\n            if template_name and name.lower() == template_name.lower():\n                return self.message_templates[name]\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.template_dict import TemplateDictionary
d = TemplateDictionary()
same('declared', d.get_template('PacketAck').name, 'PacketAck')
same('not declared', d.get_template('packetack'), None)
'''),
 dict(id='c16-flavor', property='C16', needs='a message.xml with a flavour besides template and llsd',
  breaks='a message listed with another flavour than llsd is allowed over UDP',
  edits=[('message/message_dot_xml.py', "            if self.messages[msg_name]['flavor'] == 'template':\n", "            if self.messages[msg_name]['flavor'] != 'llsd':\n")],
  demo='''
from lib import *
from llbase import llsd
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
x = MessageDotXML(llsd.format_xml({'serverDefaults': {}, 'capBans': {}, 'maxQueuedEvents': 1, 'messageBans': {}, 'messages': {'A': {'flavor': 'template'}, 'B': {'flavor': 'llsd'}, 'C': {'flavor': 'none'}}}))
same('allowed', [x.validate_udp_msg(n) for n in 'ABCD'], [True, False, False, True])
'''),
 dict(id='c17-equal', property='C17', needs='the same handler subscribed twice with the same arguments, one of them unsubscribed',
  breaks='unsubscribing removes every subscription with the same handler and arguments',
  edits=[('events.py', '            self.subscribers.remove((handler, args, kwargs))\n', '            self.subscribers.remove((handler, args, kwargs))\n            while (handler, args, kwargs) in self.subscribers:\n                self.subscribers.remove((handler, args, kwargs))\n')],
  demo='''
from lib import *
from pyogp.lib.base.events import Event
e = Event(); got = []
h = lambda x, *a: got.append((x,) + a)
e.subscribe(h, 1); e.subscribe(h, 2); e.subscribe(h, 1)
e.unsubscribe(h, 1)
e('d')
same('calls', got, [('d', 2), ('d', 1)])
'''),
 dict(id='c18-fresh', property='C18', needs='a name registered, its only subscription removed, registered again while the first notifier is kept',
  breaks='registering a name without subscribers gives a new notifier, so subscriptions made at the first one are lost',
  edits=[('message/message_handler.py', '''        return self.handlers.setdefault(message_name, MessageHandledNotifier(message_name, self.settings))
''', '''        if len(self.handlers.get(message_name, ())) == 0:
            self.handlers[message_name] = MessageHandledNotifier(message_name, self.settings)
        return self.handlers[message_name]
''')],
  demo='''
from lib import *
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.settings import Settings
h = MessageHandler(Settings(quiet_logging=True)); got = []
a = h.register('X'); b = h.register('X')
a.subscribe(lambda m: got.append('a')); b.subscribe(lambda m: got.append('b'))
h.handle(message('X'))
same('called', got, ['a', 'b'])
'''),
 dict(id='c19-empty', property='C19', needs='an event with a repetition that has no fields between others',
  breaks='a repetition without fields is left out, so the later ones move up',
  edits=[('event_queue.py', "                                        block = Block(block_name)\n                                        new_message.add_block(block)\n", "                                        block = Block(block_name)\n                                        if block_data: new_message.add_block(block)\n")],
  demo='''
from lib import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.settings import Settings
q = EventQueueClient(settings=Settings(quiet_logging=True))
r = q._decode_eq_result({'id': 1, 'events': [{'message': 'PacketAck', 'body': {'Packets': [{'ID': 1}, {}, {'ID': 2}]}}]})
same('repetitions', [sorted(b.vars) for b in r[0].blocks['Packets']], [['ID'], [], ['ID']])
'''),
 dict(id='c20-zero', property='C20', needs='a batch with id 0',
  breaks='a batch with the id 0 is not acknowledged by the next poll',
  edits=[('event_queue.py', "                    self.data = {}\n                    if self.last_id != -1:\n", "                    self.data = {}\n                    if self.last_id > 0:\n")],
  demo='''
from lib import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.settings import Settings
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        sent.append(data)
        if len(sent) == 2: q.stopped = True
        return {'id': 0, 'events': []}
sent = []
q = EventQueueClient(Cap(), settings=Settings(quiet_logging=True))
q.start()
same('polls', sent[:2], [{}, {'ack': 0}])
'''),
 dict(id='c20-again', property='C20', needs='an empty response between two batches',
  breaks='an empty response does not clear the ack, so the id of the batch before it is acknowledged again',
  edits=[('event_queue.py', "                    else:\n                        self.last_id = -1\n", "                    elif self.last_id < 0:\n                        self.last_id = -1\n")],
  demo='''
from lib import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.settings import Settings
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        sent.append(data)
        if len(sent) == 3: q.stopped = True
        return [{'id': 5, 'events': []}, None, None, None][len(sent) - 1]
sent = []
q = EventQueueClient(Cap(), settings=Settings(quiet_logging=True))
q.start()
same('polls', sent, [{}, {'ack': 5}, {}])
'''),
 dict(id='c21-gone', property='C21', needs='a POST answered with 410',
  breaks='an HTTP error 410 is reported as resource not found, without code, message and body',
  edits=[('caps.py', '''            if e.code==404:
                raise ResourceNotFound(self.public_url)
            else:
                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="POST")
''', '''            if e.code in (404, 410):
                raise ResourceNotFound(self.public_url)
            else:
                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method="POST")
''')],
  demo='''
from lib import *
from StringIO import StringIO
from pyogp.lib.base.caps import Capability
from pyogp.lib.base import exc
from pyogp.lib.base.settings import Settings
class Rest(object):
    def POST(self, *a, **k): raise exc.HTTPError(410, 'Gone', StringIO('body'))
c = Capability('n', 'http://x', Rest(), Settings(quiet_logging=True))
try: c.POST({})
except exc.ResourceError, e: same('code', (e.code, e.body), (410, 'body'))
except exc.ResourceNotFound, e: same('error', 'ResourceNotFound', 'ResourceError')
'''),
 dict(id='c22-kept', property='C22', needs='two requests to the same seed capability, a name refused in the second',
  breaks='names granted by an earlier request appear among those of a later one',
  edits=[('caps.py', "        caps = {}\n        for name in names:\n", "        caps = self.__dict__.setdefault('_caps', {})\n        for name in names:\n")],
  demo='''
from lib import *
from pyogp.lib.base.caps import SeedCapability
from pyogp.lib.base.settings import Settings
s = SeedCapability('seed', 'http://seed', object(), Settings(quiet_logging=True))
s.POST = lambda p: {'capabilities': dict((n, 'http://' + n) for n in p['capabilities'])}
same('first', sorted(s.get(['A', 'B'])), ['A', 'B'])
same('second', sorted(s.get(['C'])), ['C'])
'''),
 dict(id='c23-zero', property='C23', needs='the LLSD builder and a value that is zero, empty or false',
  breaks='the LLSD builder leaves out fields whose value is zero, empty or false',
  edits=[('message/llsd_builder.py', "                    block[variable.name] = variable.data\n", "                    if variable.data or block: block[variable.name] = variable.data\n")],
  demo='''
from lib import *
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
b = LLSDMessageBuilder()
b.new_message('X'); b.next_block('B'); b.add_data('F', 0, None); b.next_block('B'); b.add_data('F', 1, None)
same('message', b.build_message()[0], {'B': [{'F': 0}, {'F': 1}]})
'''),
 dict(id='c25-lost', property='C25', needs='a message queued while the loop sends the queue (for example by a subscriber of an outgoing message)',
  breaks='a message queued while the queue is being sent is dropped',
  edits=[('message_manager.py', '''            while len(self.outgoing_queue) > 0:                
                (packet, reliable) = self.outgoing_queue.pop(0)
                self.send_udp_message(packet, reliable)
''', '''            for (packet, reliable) in list(self.outgoing_queue):
                self.send_udp_message(packet, reliable)
            del self.outgoing_queue[:]
''')],
  demo='''
from lib import *
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.settings import Settings
m = MessageManager(host(), settings=Settings(quiet_logging=True))
sent = []
def send(p, r=False):
    sent.append(p)
    if p == 'a': m.enqueue_message('b')
m.send_udp_message = send
class C(object):
    def receive_packet(self, s):
        C.n -= 1
        if C.n <= 0: m._is_running = False
        return '', 0
    def get_sender(self): return None
C.n = 3
m.udp_dispatcher.udp_client = C()
m.enqueue_message('a'); m._is_running = True
m._udp_dispatcher()
same('sent', sent, ['a', 'b'])
'''),
 dict(id='c26-negative', property='C26', needs='a range below zero',
  breaks='the nearest-to-zero rule takes effect for every value of a range that lies below zero',
  edits=[('helpers.py', '''        max_error = delta * OOU8MAX
        if math.fabs(val) < max_error:
''', '''        max_error = delta * OOU8MAX
        if val < max_error and upper > 0:
''')],
  demo='''
from lib import *
from pyogp.lib.base.helpers import Helpers
same('lower bound', Helpers.packed_u8_to_float('\\0', 0, -2.0, 3.0), -2.0)
'''),
 dict(id='c27-copy', property='C27', needs='a random UUID asked of a copy',
  breaks='the copy of a UUID shares nothing, but a copy of the nil UUID is already random',
  edits=[('datatypes.py', "        return UUID(string=str(self.uuid))\n", "        new = UUID()\n        new.uuid = self.uuid\n        if self.uuid.int >> 64 == 0: new.uuid = uuid.UUID(int=self.uuid.int & 0x7fffffffffffffff)\n        return new\n")],
  demo='''
from lib import *
from pyogp.lib.base.datatypes import UUID
u = UUID('00000000-0000-0000-8000-000000000001')
same('copy', str(u.copy()), str(u))
'''),
 dict(id='c27-parse', property='C27', needs='a vector text with a number before the opening bracket or other text around it',
  breaks='a vector text with four numbers is taken as one with three',
  edits=[('datatypes.py', "        if len(dims) != 3:\n", "        if len(dims) < 3 or dims[3:] and dims[3].strip():\n"), ('datatypes.py', "        x, y, z = [float(d.strip()) for d in dims]\n", "        x, y, z = [float(d.strip()) for d in dims[:3]]\n")],
  demo='''
from lib import *
from pyogp.lib.base.datatypes import Vector3
same('three', Vector3.parse('<1, 2, 3>')(), (1.0, 2.0, 3.0))
try: r = Vector3.parse('1, 2, 3,')()
except ValueError: r = None
same('four', r, None)
'''),
 dict(id='c28-count', property='C28', needs='a non-empty datagram that cannot be decoded',
  breaks='datagrams that cannot be decoded are not counted as received',
  edits=[('message/udpdispatcher.py', "            self.packets_in += 1\n", ""), ('message/udpdispatcher.py', "            recv_packet = self.udp_deserializer.deserialize(msg_buf)\n", "            recv_packet = self.udp_deserializer.deserialize(msg_buf)\n            self.packets_in += 1\n")],
  demo='''
from lib import *
from pyogp.lib.base import exc
D, c = dispatcher()
try: D.receive_check(host(), 'abc', 3)
except exc.MessageDeserializationError: pass
same('received', D.packets_in, 1)
'''),
 dict(id='c15-port', property='C15', needs='two peers at one address, one of them removed',
  breaks='removing a circuit removes the circuits of all peers with that address',
  edits=[('message/circuit.py', '''        if (host.ip, host.port) in self.circuit_map:
            del self.circuit_map[(host.ip, host.port)]
''', '''        if (host.ip, host.port) in self.circuit_map:
            for key in self.circuit_map.keys():
                if key[0] == host.ip: del self.circuit_map[key]
''')],
  demo='''
from lib import *
from pyogp.lib.base.message.circuit import CircuitManager
m = CircuitManager(); a, b = host(port=1), host(port=2)
x, y = m.add_circuit(a, 0), m.add_circuit(b, 0)
m.remove_circuit_data(a)
same('removed', m.get_circuit(a), None)
same('kept', m.get_circuit(b) is y, True)
'''),
 dict(id='c13-own', property='C13', needs='two circuits that both owe acks, one more than one message full',
  breaks='the acks of a circuit that fill more than one message are sent in the wrong order (last message first)',
  edits=[('message/udpdispatcher.py', "            for packet_id in circuit.acks:\n", "            for packet_id in circuit.acks[len(circuit.acks) // 251 * 251:] + circuit.acks[:len(circuit.acks) // 251 * 251]:\n")],
  demo='''
from lib import *
import struct
D, c = dispatcher()
ci = D.find_circuit(host())
for i in range(1, 401): ci.collect_ack(i)
D.process_acks()
got = []
for d, ip, port in c.out:
    got += [struct.unpack('<I', d[11 + 4 * i:15 + 4 * i])[0] for i in range(ord(d[10]))]
same('acks', got, range(1, 401))
'''),
]
