BUGS = [
 dict(id='c10-wrap', property='C10', needs='more than 65535 packets sent on one circuit',
  breaks='sequence numbers start again at 1 after 65535, so numbers are used twice',
  edits=[('message/circuit.py', '        self.last_packet_out_id += 1\n', '        self.last_packet_out_id = self.last_packet_out_id % 0xFFFF + 1\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.circuit import Circuit
c = Circuit(host(), 0)
for i in range(65530): c.next_packet_id()
ids = []
for i in range(10):
    m = message('TestMessage')
    c.prepare_packet(m)
    ids.append(m.packet_id)
same('sequence numbers', ids, range(65531, 65541))
'''),
 dict(id='c10-resent', property='C10', needs='a resent packet that was sent before',
  breaks='a resent packet goes out with the number it had when first sent, so the numbers on the circuit do not count up by one',
  edits=[('message/circuit.py', '        packet.packet_id = self.next_packet_id()\n', '        if flag != PackFlags.LL_RESENT_FLAG or not packet.packet_id:\n            packet.packet_id = self.next_packet_id()\n')],
  demo='''
from lib import *
from pyogp.lib.base.message.circuit import Circuit
from pyogp.lib.base.message.msgtypes import PackFlags
c = Circuit(host(), 0)
m = message('TestMessage'); n = message('TestMessage')
c.prepare_packet(m, PackFlags.LL_RELIABLE_FLAG, 3)
c.prepare_packet(n)
c.prepare_packet(m, PackFlags.LL_RESENT_FLAG)
same('sequence number', m.packet_id, 3)
'''),
 dict(id='c11-count', property='C11', needs='the same packet object sent reliably again while circuit still waits, or an ack repeated in one packet',
  breaks='an ack that is listed twice in one packet takes two packets off the outstanding count',
  edits=[('message/circuit.py', '''        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
''', '''        known = [ack_packet_id for ack_packet_id in packet.acks if ack_packet_id in self.unacked_packets]
        self.unack_packet_count -= len(known)
        for ack_packet_id in packet.acks:
            self.ack_reliable_packet(ack_packet_id)
'''), ('message/circuit.py', '''            del self.unacked_packets[packet_id]
            self.unack_packet_count -= 1
''', '''            del self.unacked_packets[packet_id]
''')],
  demo='''
from lib import *
D, c = dispatcher()
h = host()
for i in range(3): D.send_reliable(message('CompletePingCheck', block('PingID', PingID=i)), h, 5)
ci = D.find_circuit(h)
m = message('CompletePingCheck'); m.reliable = False; m.acks = [2, 2]
ci.handle_packet(m)
same('outstanding', sorted(ci.unacked_packets), [1, 3])
same('count', ci.unack_packet_count, 2)
'''),
 dict(id='c12-dup', property='C12', needs='the same datagram received twice in a row (the sender resent it because our ack got lost)',
  breaks='a reliable packet with the number of the one received just before is not acknowledged',
  edits=[('message/circuit.py', '''        if packet.reliable == True:
            self.collect_ack(packet.packet_id)
''', '''        if packet.reliable == True and packet.packet_id != self.last_packet_in_id:
            self.collect_ack(packet.packet_id)
            self.last_packet_in_id = packet.packet_id
''')],
  demo='''
from lib import *
D, c = dispatcher()
h = host()
got = chr(0x40) + chr(0) * 3 + chr(9) + chr(0) + chr(1) + chr(7)
for i in range(2):
    D.message_handler.register('StartPingCheck').subscribe(lambda m: None)
    D.receive_check(h, got + chr(0) * 4, len(got) + 4)
same('acks owed', D.find_circuit(h).acks, [9, 9])
'''),
 dict(id='c13-batch', property='C13', needs='exactly 251 (or a multiple) acks owed when they are flushed',
  breaks='owed acks are only forgotten when a last, partial batch was sent: 251 owed acks are sent again and again',
  edits=[('message/udpdispatcher.py', '''            if acks_this_packet > 0:

                self.send_message(msg, circuit.host)

            circuit.acks = []
''', '''            if acks_this_packet > 0:

                self.send_message(msg, circuit.host)

                circuit.acks = []
''')],
  demo='''
from lib import *
D, c = dispatcher()
h = host()
ci = D.find_circuit(h)
for i in range(251): ci.collect_ack(i + 1)
D.process_acks()
same('datagrams', len(c.out), 1)
same('owed', D.has_unacked(), False)
D.process_acks()
same('datagrams', len(c.out), 1)
'''),
 dict(id='c14-order', property='C14', needs='acks owed out of numerical order, or the same one twice',
  breaks='owed acks are appended in the order of a set: not in the order received, and duplicates are lost',
  edits=[('message/circuit.py', '            for packet_id in self.acks:\n', '            for packet_id in sorted(set(self.acks)):\n')],
  demo='''
from lib import *
D, c = dispatcher()
h = host()
ci = D.find_circuit(h)
for i in (300, 2, 300, 7): ci.collect_ack(i)
D.send_message(message('CompletePingCheck', block('PingID', PingID=1)), h)
d = c.out[0][0]
from struct import unpack
same('count', ord(d[-1]), 4)
same('acks', unpack('>4I', d[-17:-1]), (300, 2, 300, 7))
'''),
 dict(id='c15-cache', property='C15', needs='a circuit that is looked up, removed, and looked up again',
  breaks='the circuit found last is remembered, so a removed circuit is still found',
  edits=[('message/circuit.py', '''        self.circuit_map = {}
        self.unacked_circuits = {}
''', '''        self.circuit_map = {}
        self.unacked_circuits = {}
        self.last_found = (None, None)
'''), ('message/circuit.py', '''        if (host.ip, host.port) in self.circuit_map:
            return self.circuit_map[(host.ip, host.port)]

        return None
''', '''        key, circuit = self.last_found
        if key == (host.ip, host.port):
            return circuit

        if (host.ip, host.port) in self.circuit_map:
            self.last_found = (host.ip, host.port), self.circuit_map[(host.ip, host.port)]
            return self.last_found[1]

        return None
''')],
  demo='''
from lib import *
from pyogp.lib.base.message.circuit import CircuitManager
m = CircuitManager()
m.add_circuit(host(), 0)
m.get_circuit(host())
m.remove_circuit_data(host())
same('removed circuit', m.get_circuit(host()), None)
'''),
 dict(id='c24-shared', property='C24', needs='two settings objects, one of which has a spammer added',
  breaks='all settings objects share one list of spammers',
  edits=[('settings.py', 'class Settings(object):\n', "SPAMMERS = ['PacketAck', 'AgentUpdate']\n\nclass Settings(object):\n"), ('settings.py', "        self.UDP_SPAMMERS = ['PacketAck', 'AgentUpdate']\n", '        self.UDP_SPAMMERS = SPAMMERS\n')],
  demo='''
from lib import *
from pyogp.lib.base.settings import Settings
a = Settings(); b = Settings()
a.UDP_SPAMMERS.append('ImprovedTerseObjectUpdate')
same('spammers', b.UDP_SPAMMERS, ['PacketAck', 'AgentUpdate'])
'''),
]
