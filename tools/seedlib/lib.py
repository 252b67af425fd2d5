# helpers of the demonstrations
import sys
class Client(object):
    """a UDP client that keeps what is sent"""
    def __init__(self): self.out = []; self.sender = None
    def start_udp_connection(self): return object()
    def send_packet(self, sock, data, host): self.out.append((data, host.ip, host.port))
def dispatcher(**k):
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    from pyogp.lib.base.settings import Settings
    s = k.pop('settings', None) or Settings(quiet_logging=True)
    c = Client()
    return UDPDispatcher(c, s, **k), c
def host(ip='10.0.0.1', port=13000):
    from pyogp.lib.base.message.circuit import Host
    return Host((ip, port))
def message(name='PacketAck', *blocks):
    from pyogp.lib.base.message.message import Message
    return Message(name, *blocks)
def block(name, **f):
    from pyogp.lib.base.message.message import Block
    return Block(name, **f)
def same(what, got, want):
    if got != want:
        print '%s: %r instead of %r' % (what, got, want)
        sys.exit(1)
def uid(n):
    from pyogp.lib.base.datatypes import UUID
    return UUID('00000000-0000-0000-0000-%012d' % n)
class Lines(object):
    """a template file that is held in memory"""
    def __init__(self, text): self.lines = text.splitlines(True); self.at = 0
    def seek(self, n): self.at = 0
    def next(self):
        if self.at >= len(self.lines): raise StopIteration
        self.at += 1
        return self.lines[self.at - 1]
    def __iter__(self): return self
