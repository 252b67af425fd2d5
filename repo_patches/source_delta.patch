From 538cc1dd251867c1ff6933fa5b3dca92a607080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/24] fix: a received datagram no longer changes the host of
 circuits to other peers

---
 pyogp/lib/base/network/net.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..7990c19 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,8 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # a new Host each time: circuits keep the one they were created with
+        self.sender = Host(addr)
         return data, len(data)
 
     def start_udp_connection(self):
@@ -67,7 +67,7 @@ class NetUDPClient(object):
 
     def __repr__(self):
 
-        return self.sender.__repr__
+        return self.sender.__repr__()
 
 """
 Contributors can be viewed at:
-- 
2.43.0


From f4deac5ef3651c60dd9a361afd6aa79afc56e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/24] fix: events survive unsubscribing during notification,
 report unknown handlers, can be cleared

---
 pyogp/lib/base/events.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..4888b58 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,13 +46,14 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        # a copy, handlers may unsubscribe themselves while being notified
+        for instance, inner_args, kwargs in self.subscribers[:]:
 
             try:
 
@@ -70,7 +71,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        del self.subscribers[:]
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 11645f2e99125092e370bdc93f043828c3c47dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 03/24] fix: a KeyError raised by a message subscriber is no
 longer swallowed

---
 pyogp/lib/base/message/message_handler.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..77cb5bd 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -70,16 +70,16 @@ class MessageHandler(object):
 
             handler = self.handlers[message.name]
 
-            # Handle the message if we have subscribers
-            # Conveniently, this will also enable verbose message logging
-            if len(handler) > 0:
-                if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
-
-                handler(message)
-
         except KeyError:
             #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
+            return
+
+        # Handle the message if we have subscribers
+        # Conveniently, this will also enable verbose message logging
+        if len(handler) > 0:
+            if self.settings.LOG_VERBOSE and not (self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS): logger.debug('Handling message : %s' % (message.name))
+
+            handler(message)
 
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
-- 
2.43.0


From fbb57d4e6e97f7d9539e15e825125463247bcfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 04/24] fix: inequality of UUIDs agrees with their equality

---
 pyogp/lib/base/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/datatypes.py b/pyogp/lib/base/datatypes.py
index bdfff7c..6d20cbf 100644
--- a/pyogp/lib/base/datatypes.py
+++ b/pyogp/lib/base/datatypes.py
@@ -240,6 +240,8 @@ class UUID(object):
         else:
             return False
 
+    def __ne__(self, other):
+        return not self == other
 
     def __xor__(self, arg):
         """ the xor of two UUIDs """
-- 
2.43.0


From eb54704cb8d3634e3a34fa638e15f96e62c6d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 05/24] fix: low frequency message numbers take two bytes,
 template parser errors can be raised

---
 pyogp/lib/base/message/template_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 4dd402a..8b2c958 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -27,6 +27,7 @@ import template
 from data import msg_tmpl
 from msgtypes import MsgFrequency, MsgTrust, MsgEncoding
 from msgtypes import MsgDeprecation, MsgBlockType, MsgType, sizeof
+from pyogp.lib.base import exc
 
 MESSAGE = 1
 BLOCK = 2
@@ -136,7 +137,7 @@ class MessageTemplateParser(object):
             msg_num_hex = binTemp
             msg_num = struct.unpack('>h', '\x00' + binTemp[3])[0]
         elif frequency == MsgFrequency.LOW_FREQUENCY_MESSAGE:
-            msg_num_hex = struct.pack('>BBB', 0xff, 0xff, msg_num)
+            msg_num_hex = struct.pack('>BBH', 0xff, 0xff, msg_num)
         elif frequency == MsgFrequency.MEDIUM_FREQUENCY_MESSAGE:
             msg_num_hex = struct.pack('>BB', 0xff, msg_num)
         elif frequency == MsgFrequency.HIGH_FREQUENCY_MESSAGE:
-- 
2.43.0


From 7287ad18905ce86088c45d65050d19e1b8b00fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/24] fix: fixed width and IP address fields are packed
 without a NUL terminator

---
 pyogp/lib/base/message/data_packer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..3c1ca74 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_fixed)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_fixed)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,10 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_fixed(self, endian, data):
+        """Return the bytes of a fixed width field as they are, without a terminator."""
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From c517be5121b289166fab853ffbc6ec1430ebd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/24] fix: serializing an unknown message gives None, packet
 ids are unsigned

---
 pyogp/lib/base/message/udpserializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..0c4192e 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -62,6 +62,9 @@ class UDPMessageSerializer(object):
 
         self.set_current_template()
 
+        if self.current_template == None:
+            return None
+
         # validate whether we are allowed to receive this message over udp
         if not self.message_xml.validate_udp_msg(self.current_template.name):
             logger.warning("Sending '%s' over UDP, which is deprecated. Discarding." % (self.current_template.name))
@@ -76,15 +79,12 @@ class UDPMessageSerializer(object):
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
-                                                  MsgType.MVT_S32, \
+                                                  MsgType.MVT_U32, \
                                                   endian_type=EndianType.BIG)
 
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
         msg_buffer += self.packer.pack_data(0, MsgType.MVT_U8)
 
-        if self.current_template == None:
-            return None
-
         #don't need to pack the frequency and message number. The template
         #stores it because it doesn't change per template.
         pack_freq_num = self.current_template.msg_num_hex
-- 
2.43.0


From d6b6d7a1e6085ea9061b61a73e0f772bd147bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 08/24] fix: a custom message template and message.xml reach
 the serializer and the deserializer

---
 pyogp/lib/base/message/udpdispatcher.py |  8 +++++---
 pyogp/lib/base/message/udpserializer.py |  2 +-
 pyogp/lib/base/message_manager.py       | 10 +++++-----
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..c38f59f 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -78,7 +78,7 @@ class UDPDispatcher(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
                 self.message_template = None
 
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                        message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 0c4192e..69ac766 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..11bb256 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -70,11 +70,10 @@ class MessageManager(object):
             if isinstance(message_template, file):
                 self.message_template = message_template
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message_template.msg" % (message_template, type(message_template)))
 
-                from pyogp.lib.base.data import msg_tmpl
-                self.message_template = msg_tmpl
+                self.message_template = None
 
         # allow the passing in of message.xml as a file handle
         # mapped to MessageDotXML()
@@ -84,7 +83,7 @@ class MessageManager(object):
             if isinstance(message_xml, file):
                 self.message_xml = MessageDotXML(message_xml = message_xml.read())
             else:
-                log.warning("%s parameter is expected to be a filehandle, it is a %s. \
+                logger.warning("%s parameter is expected to be a filehandle, it is a %s. \
                         Using the embedded message.xml" % (message_xml, type(message_xml)))
                 self.message_xml = MessageDotXML()
 
@@ -109,7 +108,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 3877b0ae61e180d35b5739d7db06bd528127dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 09/24] fix: a message manager without an event queue can be
 stopped

---
 pyogp/lib/base/message_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 11bb256..42db4b6 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -140,7 +140,7 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
+        if self.event_queue != None and self.event_queue._running:
             self.event_queue.stop()        
 
     def monitor_outgoing_queue(self):
-- 
2.43.0


From 050bdd45b17bdef7465db65255fd0d62afaaa53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 10/24] fix: a failed event queue poll does not deliver the
 previous events again

---
 pyogp/lib/base/event_queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..6100777 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -194,6 +194,8 @@ class EventQueueClient(object):
                         else:
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
+                        # nothing was received, the previous result has already been handled
+                        continue
 
                     if self.result != None: 
                         self.last_id = self.result['id']
-- 
2.43.0


From fe2a976c8135e775066fa89f4f00221e5b4af271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 11/24] fix: the dict and llsd forms of a message keep all
 repeated blocks

---
 pyogp/lib/base/message/message.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..47d77f8 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -117,7 +117,7 @@ class Message(MessageBase):
 
     def get_var(self, block, variable):
 
-        return self.blocks[block].vars[variable]
+        return self.blocks[block][0].vars[variable]
 
     def from_dict_params(self, data):
         """ build this instance from a dict """
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
@@ -170,7 +170,7 @@ class Message(MessageBase):
         TypeError: invalid type
         '''
         
-        return llsd.format_xml(self.as_dict())
+        return llsd.format_xml(self.to_dict())
 
     def data(self):
         """ a string representation of a packet """
-- 
2.43.0


From dfb4b4b9c13589936e5aa891c95325c9bd31353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 12/24] fix: a packet flagged as carrying acks carries them, in
 network byte order

---
 pyogp/lib/base/message/circuit.py         |  4 +++-
 pyogp/lib/base/message/udpdeserializer.py |  3 ++-
 pyogp/lib/base/message/udpserializer.py   | 10 +++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..c1aa544 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -80,7 +80,9 @@ class Circuit(object):
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
             for packet_id in self.acks:
-                packet.add_ack(packet_id)
+                #their number has to fit in one byte
+                if len(packet.acks) < 255:
+                    packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
             self.add_reliable_packet(packet)
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..e06c530 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -240,7 +240,8 @@ class UDPMessageDeserializer(object):
             ack_pos = 0
             while acks > 0:
                 ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \
-                                                          start_index=ack_pos)
+                                                          start_index=ack_pos, \
+                                                          endian_type=EndianType.BIG)
                 ack_pos += sizeof(MsgType.MVT_U32)
                 packet.add_ack(ack_packet_id)
                 acks -= 1
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 69ac766..945566f 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,14 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        #the acks go after the message, followed by their number
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for packet_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(packet_id, \
+                                                    MsgType.MVT_U32, \
+                                                    endian_type=EndianType.BIG)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From f9eed2a3fae21c8efb381f02a0b884706ec40ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 13/24] fix: a packet that is not parsed is acked only if it
 was sent as reliable

---
 pyogp/lib/base/message/udpdispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index c38f59f..6e98ab9 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -144,7 +144,8 @@ class UDPDispatcher(object):
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 095a170b2d746d629725e3081591cf8a6122ca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 14/24] fix: truncated packets raise
 MessageDeserializationError, the extra header is skipped

---
 pyogp/lib/base/message/udpdeserializer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index e06c530..0325350 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -77,6 +77,9 @@ class UDPMessageDeserializer(object):
         msg_buff = self.context
         msg_len = len(msg_buff)
 
+        if msg_len <= PacketLayout.PACKET_ID_LENGTH:
+            raise exc.MessageDeserializationError("packet length", "template mismatch")
+
         if ord(msg_buff[0]) & PackFlags.LL_ACK_FLAG:
             num_acks = ord(msg_buff[msg_len-1])
             #logger.debug("Decoding packet with acks: %d", num_acks)
@@ -84,6 +87,9 @@ class UDPMessageDeserializer(object):
             temp_acks = msg_buff[-ack_length:]
             msg_buff = msg_buff[:-ack_length]
 
+            if len(msg_buff) <= PacketLayout.PACKET_ID_LENGTH:
+                raise exc.MessageDeserializationError("packet length", "too many acks")
+
         #Now zero decode the entire msg except the acks, in order to get the correct evaluation of the template
 
         if ord(msg_buff[0]) & PackFlags.LL_ZERO_CODE_FLAG:
@@ -153,8 +159,13 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
-        self.current_template = self.__decode_header(header)
+        #the message number is found after the extra header, if there is one
+        start = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[start:start+6]
+        try:
+            self.current_template = self.__decode_header(header)
+        except (IndexError, struct.error):
+            raise exc.MessageDeserializationError("message number", "packet is too short")
         if self.current_template != None:
             return True
 
-- 
2.43.0


From 18f71a9e62d199da998e8789ab635e0f6fd997a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 15/24] fix: fields missing from a truncated packet are not
 read from its acks

---
 pyogp/lib/base/message/udpdeserializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 0325350..24574a6 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -257,6 +257,9 @@ class UDPMessageDeserializer(object):
                 packet.add_ack(ack_packet_id)
                 acks -= 1
 
+            #the acks are no part of the message
+            data = data[:msg_size-ack_start]
+
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
             packet.reliable = True
-- 
2.43.0


From e7db9e932ac38d5de3f85d4b35b9c306a8897686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 16/24] fix: acks carried by a packet that is not parsed are
 processed

---
 pyogp/lib/base/message/udpdispatcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 6e98ab9..6e17a72 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -147,6 +147,13 @@ class UDPDispatcher(object):
                 if send_flags & PackFlags.LL_RELIABLE_FLAG:
                     circuit.collect_ack(packet_id)
 
+                # the acks it carries count, even if we don't parse the rest
+                if send_flags & PackFlags.LL_ACK_FLAG:
+                    acks_end = len(msg_buf) - 1
+                    acks_start = acks_end - sizeof(MsgType.MVT_U32) * ord(msg_buf[acks_end])
+                    for pos in range(acks_start, acks_end, sizeof(MsgType.MVT_U32)):
+                        circuit.ack_reliable_packet(self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, pos, endian_type=EndianType.BIG))
+
                 return None
 
             #Case - trusted packets can only come in over trusted circuits
-- 
2.43.0


From 687ecda0658d0b54fa75a858353e0f7840cd6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 17/24] fix: a message object sent again does not repeat the
 acks of its first datagram

---
 pyogp/lib/base/message/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index c1aa544..3062cfc 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -72,6 +72,10 @@ class Circuit(object):
 
         packet.packet_id = self.next_packet_id()
 
+        #a packet that is sent again does not repeat the acks it carried before
+        packet.acks = []
+        packet.num_acks = 0
+
         #if we have acks that we can add on, add them
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
-- 
2.43.0


From 243b4dff92ff2714050397dfa65fc06cb1a3c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 18/24] fix: a UUID or vector that is too short raises
 DataUnpackingError

---
 pyogp/lib/base/message/data_unpacker.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyogp/lib/base/message/data_unpacker.py b/pyogp/lib/base/message/data_unpacker.py
index db47b18..44cac65 100644
--- a/pyogp/lib/base/message/data_unpacker.py
+++ b/pyogp/lib/base/message/data_unpacker.py
@@ -72,7 +72,7 @@ class DataUnpacker(object):
             if callable(unpack):
                 try:
                     return unpack(endian, data, var_size)
-                except struct.error, error:
+                except (struct.error, ValueError), error:
                     traceback.print_exc()
                     raise DataUnpackingError(data, error)
             else:
@@ -84,8 +84,7 @@ class DataUnpacker(object):
 
         return None
 
-    def __unpack_tuple(self, endian, tup, tp, var_size=None):
-        size = len(tup) / struct.calcsize(tp)
+    def __unpack_tuple(self, endian, tup, tp, size):
         return struct.unpack(endian + str(size) + tp, tup)
 
     def __unpack_vector3(self, endian, vec, var_size=None):
@@ -93,10 +92,10 @@ class DataUnpacker(object):
         return Vector3(vec, 0)
 
     def __unpack_vector3d(self, endian, vec, var_size=None):
-        return self.__unpack_tuple(endian, vec, 'd')
+        return self.__unpack_tuple(endian, vec, 'd', 3)
 
     def __unpack_vector4(self, endian, vec, var_size=None):
-        return self.__unpack_tuple(endian, vec, 'f')
+        return self.__unpack_tuple(endian, vec, 'f', 4)
 
     def __unpack_quat(self, endian, quat, var_size=None):
         #first, pack to vector3
-- 
2.43.0


From c2639f1be0c1a5fb46de9f4b111aebaac3a6d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 19/24] fix: reporting a message that cannot be serialized does
 not raise

---
 pyogp/lib/base/message/udpdispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 6e17a72..4147dad 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -249,7 +249,7 @@ class UDPDispatcher(object):
             pass
 
         except Exception, error:
-            logger.warning("Error trying to serialize the following packet: %s" % (packet))
+            logger.warning("Error trying to serialize the following packet: %s" % (packet.name))
             traceback.print_exc()
 
             return
-- 
2.43.0


From 4b82561d312fedb50f4c1e07f00a1eb4ca66a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:37 +0000
Subject: [PATCH 20/24] fix: a comment after an entry of the template file is
 ignored

---
 pyogp/lib/base/message/template_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/template_parser.py b/pyogp/lib/base/message/template_parser.py
index 8b2c958..fc41050 100644
--- a/pyogp/lib/base/message/template_parser.py
+++ b/pyogp/lib/base/message/template_parser.py
@@ -65,7 +65,7 @@ class MessageTemplateParser(object):
         block_header_re = '.*?(\w+)\s+(\w+)(\s+(\d+))?.*'
         message_header_re = '.*?(\w+)\s+(\w+)\s+(\w+)\s+(\w+)\s+(\w+)(\s+(\w+))?.*'
         version_re = "version.(.+)"
-        comment_re = "^\s*//.*$"
+        comment_re = "//.*"
 
         current_template = None
         current_block = None
@@ -76,8 +76,8 @@ class MessageTemplateParser(object):
                 line = lines.next()
             except StopIteration:
                 break
-            if re.match(comment_re, line):
-                continue
+            #a comment runs to the end of its line
+            line = re.sub(comment_re, '', line)
 
             start = re.match(start_re, line)
             end = re.match(end_re, line)
-- 
2.43.0


From ae605b79a9e14818cf36476b78cf72c8822f0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 21/24] fix: entries of an event queue response other than its
 events are not decoded

---
 pyogp/lib/base/event_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 6100777..367f19b 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -278,7 +278,7 @@ class EventQueueClient(object):
 
                 for i in data:
 
-                    if i == 'id':
+                    if i != 'events':
 
                         #last_id = data[i]
                         pass
-- 
2.43.0


From 42a85eecc35943a2db39cdfa1d3771a412c1129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 22/24] fix: truncated LLSD raises DeserializationFailed

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..2a727a4 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -264,7 +264,8 @@ class LLSDDeserializer(object):
 
         try:
             r = llsd.parse(data)
-        except llsd.LLSDParseError, e:
+        except Exception, e:
+            # besides LLSDParseError the parser lets through what it stumbles over, e.g. an IndexError
             raise DeserializationFailed(data, str(e))
         if r==False:
             raise DeserializationFailed(data, 'result was False')
-- 
2.43.0


From 2a4670d9a8c048cd3657167b8f56c1675a889f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 23/24] fix: an LLSD body that is false or zero is a result

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 2a727a4..7c8013c 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -267,7 +267,8 @@ class LLSDDeserializer(object):
         except Exception, e:
             # besides LLSDParseError the parser lets through what it stumbles over, e.g. an IndexError
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        # the parser gives False for an empty text, but it is also a value (and equals 0)
+        if r is False and not data.strip():
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From 90c0b7c035e4dde9390fc7cf632b66e4eba181b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:04 +0000
Subject: [PATCH 24/24] fix: a malformed datagram ended the loop that sends and
 receives messages

---
 pyogp/lib/base/message_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 42db4b6..eeedf67 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -25,6 +25,7 @@ from pyogp.lib.base.message.message_handler import MessageHandler
 from pyogp.lib.base.message.message_dot_xml import MessageDotXML
 from pyogp.lib.base.event_queue import EventQueueClient
 from pyogp.lib.base.settings import Settings
+from pyogp.lib.base import exc
 
 # related
 from eventlet import api
@@ -172,9 +173,13 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except exc.MessageDeserializationError, error:
+                # anyone can send us anything, so drop it and go on
+                logger.warning("Dropping a packet that can't be deserialized: %s" % (error))
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
-- 
2.43.0

