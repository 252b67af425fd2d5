"""Writes /verif/properties.jsonl (run by hand when a property's text changes)."""
import json, os
B = 'pyogp/lib/base/'
M = B + 'message/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})
p('C01', 'Scalar, vector and UUID field codec is exact and invertible',
  'Packing a value of any integer, boolean, port, float, vector, quaternion or UUID field type gives exactly its wire bytes: the fixed width of the type, little endian (ports and UUIDs in network order), with a byte order given by the caller overriding the default of an integer or float. Unpacking those bytes at any offset of any buffer gives the same value back (floats to the precision of their width; a quaternion, sent as the three components of its form with non-negative W, as the same rotation with W rebuilt). A buffer too short for the type raises a data unpacking error, and an unknown type gives None.',
  ['inputs'], 'every field type, every in-range value, every byte order override, every buffer and offset',
  'Tests try a handful of values of some types; the codec modules are not even importable in the stable test run, and 64-bit, signed, boundary and offset cases are never sampled.',
  [M + 'data_packer.py', M + 'data_unpacker.py', M + 'msgtypes.py', B + 'helpers.py', B + 'datatypes.py'],
  [('DataPacker.pack_data', M + 'data_packer.py:53'), ('DataUnpacker.unpack_data', M + 'data_unpacker.py:56'), ('sizeof', M + 'msgtypes.py:123')],
  observe=['return value of pack/unpack'])
p('C02', 'Fixed, IP address and text fields are carried verbatim',
  'A fixed-width or IP-address field is sent and received as exactly the bytes given, with nothing added. A variable-length field given as a byte string or text is sent as its bytes (UTF-8 for text) followed by one NUL, and a missing value as a single NUL. Receiving a fixed or variable field of a given size gives back exactly the bytes of the buffer at its place.',
  ['inputs'], 'every byte string, text, size and offset', 'Length and content range over all strings; tests use a few short ASCII samples and never a fixed-width or IP field through the wire.',
  [M + 'data_packer.py', M + 'data_unpacker.py'],
  [('DataPacker string/fixed packers', M + 'data_packer.py:96'), ('DataUnpacker string/fixed unpackers', M + 'data_unpacker.py:111')])
p('C03', 'An outgoing datagram has exactly the layout its template describes',
  'Serializing a message gives the flags byte, the sequence number as four big-endian bytes, a zero byte, the message number (1, 2 or 4 bytes by frequency), then for every template block in template order its repetitions in order (a count byte first if the block is variable), each with its fields in template order, a variable field preceded by its little-endian byte length in 1, 2 or 4 bytes (RegionHandshakeReply alone is padded with four zero bytes). A message name that is in no template gives no bytes. A repeated block with the wrong number of repetitions, a missing block or field, or an unsupported length width is an error and gives no bytes.',
  ['inputs', 'configurations'], 'every template, every message for it, every flag and sequence number',
  'Tests serialize a few shipped messages and compare one buffer each; the layout must hold for all templates, repeat counts and field values.',
  [M + 'udpserializer.py', M + 'template_dict.py', M + 'template.py'],
  [('UDPMessageSerializer.serialize', M + 'udpserializer.py:57'), ('UDPMessageSerializer.build_block', M + 'udpserializer.py:109')],
  observe=['returned buffer'])
p('C04', 'An incoming datagram decodes to exactly what its bytes say',
  'A datagram that is complete under the template its message number selects decodes to a message with that name, its flags byte, its big-endian sequence number, the reliable mark iff the reliable flag is set, and for every template block exactly the encoded number of repetitions with every field holding the decoded value of its own bytes, in wire order and numbered from 0. Acks appended to the datagram are removed first, a zero-coded body is expanded first, an extra header is skipped, and variable fields lose their trailing NULs unless the field is called Data. No field value is ever taken from outside the message: if a field does not fit into what was received, no message is produced. (A message whose template has blocks but that carries no repetition of any of them is reported as empty with a deserialization error.)',
  ['inputs', 'configurations'], 'every template and every datagram, with or without acks, zero-coding and extra header',
  'Tests decode a few captured or round-tripped packets; alignment, extra header, repeat counts and truncation range over all byte strings.',
  [M + 'udpdeserializer.py', M + 'data_unpacker.py', M + 'template.py'],
  [('UDPMessageDeserializer.deserialize', M + 'udpdeserializer.py:68'), ('UDPMessageDeserializer.__decode_data', M + 'udpdeserializer.py:223')],
  observe=['returned message'])
p('C05', 'A message survives serialization and deserialization unchanged',
  'For every message whose template is known and may travel over UDP, and whose values are in range for their fields, decoding the serialized datagram gives a message with the same name, flags, sequence number, block repetitions and field values (text without its trailing NULs, floats to wire precision). This holds for every template, also a custom one given by the caller, and with or without appended acks. (A block repeated zero times is absent after decoding, and a message in which no block of the template is repeated at all is reported as empty, an error.)',
  ['inputs', 'configurations'], 'every template, every message for it', 'Tests round-trip a few messages of the shipped template.',
  [M + 'udpserializer.py', M + 'udpdeserializer.py'],
  [('UDPMessageSerializer.serialize', M + 'udpserializer.py:57'), ('UDPMessageDeserializer.deserialize', M + 'udpdeserializer.py:68')])
p('C06', 'Malformed datagrams fail safely',
  'Whatever bytes arrive, decoding ends with a message, with None, or with a message deserialization error, and with no other exception. An empty or truncated datagram, one whose ack count exceeds its size, or one with an unknown message number never gives a message. A decoding failure leaves the decoder able to decode the next datagram correctly.',
  ['inputs', 'histories'], 'every byte string, and every sequence of them', 'Tests feed well-formed packets only.',
  [M + 'udpdeserializer.py', M + 'data_unpacker.py'],
  [('UDPMessageDeserializer.deserialize', M + 'udpdeserializer.py:68')])
p('C07', 'Zero-run expansion inverts zero-coding',
  'Expanding a zero-coded byte string replaces every pair (zero byte, count n between 1 and 255) by n zero bytes and keeps every other byte, in order; so it gives back any byte string from its zero-coded form, however its runs of zeros are split into pairs. The six header bytes, the extra header and the appended acks of a datagram are not expanded.',
  ['inputs'], 'every byte string and every zero-coded form of it', 'Tests expand one or two captured packets; runs at the start, at the end, of length 255 and split runs are not sampled.',
  [M + 'udpdeserializer.py'], [('UDPMessageDeserializer.zero_code_expand', M + 'udpdeserializer.py:364')])
p('C08', 'Template parsing is faithful',
  'Parsing a message template text gives one template per message in file order, with its name, frequency, number, trust, encoding and deprecation, its blocks in order with their repetition kind and count, and their fields in order with their type and byte size, exactly as written; comments add nothing and the version is the declared one. The number bytes of a template are those its frequency calls for: one byte (high), FF and one byte (medium), FF FF and two big-endian bytes (low), or the four bytes of the written number (fixed). A variable or fixed field whose written size is not positive, or a missing template, is reported by the documented template error.',
  ['inputs'], 'every template text in the format', 'Tests count the messages of the one shipped file and look at a few of them.',
  [M + 'template_parser.py', M + 'template.py', M + 'msgtypes.py'],
  [('MessageTemplateParser', M + 'template_parser.py:36')])
p('C09', 'Templates are found by exactly their name and their wire number',
  'Looking a template up by name, or by frequency class and number, gives the template that was declared with it, and None for a name or number that none was declared with. The number bytes attached to a template for sending are the ones by which a receiver finds the same template again. All templates of the shipped file are reachable both ways.',
  ['inputs', 'configurations'], 'every list of templates with distinct names and numbers, every key', 'Tests look up a few names.',
  [M + 'template_dict.py'], [('TemplateDictionary', M + 'template_dict.py:27')])
p('C10', 'Sequence numbers count up by one per circuit',
  'The packets sent on a circuit carry the sequence numbers 1, 2, 3, ... in the order in which they were sent, whatever mix of reliable, resent, acknowledgement and ordinary packets it is, and no number is used twice or skipped (a packet that then cannot be serialized uses its number up). Traffic on one circuit does not change the numbers of another.',
  ['histories'], 'every history of sends on any circuits', 'Needs all interleavings of sends; tests send one or two packets.',
  [M + 'circuit.py', M + 'udpdispatcher.py'], [('Circuit.next_packet_id', M + 'circuit.py:65'), ('Circuit.prepare_packet', M + 'circuit.py:69')],
  state=[('last_packet_out_id', 'sequence number of the packet sent last', M + 'circuit.py:55')])
p('C11', 'Outstanding reliable packets are those sent reliably and not yet acked',
  'After any history a circuit has outstanding exactly the packets that were sent reliably on it and have not been acknowledged by acks appended to a received packet, whether or not the contents of that packet were of interest, and its outstanding count is their number. Sending unreliably, or an ack for a number that is not outstanding (unknown, repeated, or of another circuit), changes nothing. A reliable send marks the packet as reliable on the wire.',
  ['histories'], 'every history of sends and acks on any circuits', 'Duplicate, unknown and reordered acks are histories; tests ack one packet once.',
  [M + 'circuit.py', M + 'udpdispatcher.py'], [('Circuit.add_reliable_packet', M + 'circuit.py:111'), ('Circuit.ack_reliable_packet', M + 'circuit.py:96'), ('Circuit.handle_packet', M + 'circuit.py:88')],
  state=[('unacked_packets', 'reliable packets waiting for their ack, by sequence number', M + 'circuit.py:59'), ('unack_packet_count', 'their number', M + 'circuit.py:60')])
p('C12', 'A received packet is queued for acknowledgement iff it is reliable',
  'Every received datagram that is decoded, or for which the decoder gives no message (nobody is interested in it, it is barred from UDP, unknown or incomplete), adds its sequence number once to the acks owed to its sender if its reliable flag is set, and adds nothing if it is not. A datagram that makes the decoder raise an error adds nothing, and the acks owed to other senders do not change.',
  ['inputs', 'histories'], 'every datagram, subscription state and history', 'Tests receive one reliable packet.',
  [M + 'udpdispatcher.py', M + 'circuit.py'], [('UDPDispatcher.receive_check', M + 'udpdispatcher.py:115'), ('Circuit.collect_ack', M + 'circuit.py:106')],
  state=[('acks', 'sequence numbers we owe an ack for', M + 'circuit.py:58')])
p('C13', 'Flushing acks acknowledges each owed packet exactly once to the right peer',
  'Processing the owed acks sends to every circuit that owes any, to its own peer, acknowledgement messages that together list each owed sequence number exactly once and in the order received, at most 255 in one message, sends nothing on circuits that owe none, and leaves no ack owed. The dispatcher reports owed acks iff some circuit owes one.',
  ['histories', 'inputs'], 'every number of circuits and of owed acks', 'Batch boundaries need hundreds of acks; tests flush one.',
  [M + 'udpdispatcher.py'], [('UDPDispatcher.process_acks', M + 'udpdispatcher.py:247'), ('UDPDispatcher.has_unacked', M + 'udpdispatcher.py:317')])
p('C14', 'Appended acks agree with the ack flag',
  'A sent datagram has the ack flag iff acks were owed on its circuit when it was sent and it is not itself an acknowledgement message; it then ends with the owed sequence numbers in order (the first 255 of them if there are more), four big-endian bytes each, followed by their count in one byte. Without the flag nothing is appended. Decoding a datagram recovers exactly the acks appended to it.',
  ['inputs', 'histories'], 'every set of owed acks and every newly built message', 'Tests never send a packet with acks appended.',
  [M + 'circuit.py', M + 'udpserializer.py', M + 'udpdeserializer.py'], [('Circuit.prepare_packet', M + 'circuit.py:69'), ('UDPMessageSerializer.serialize', M + 'udpserializer.py:57'), ('UDPMessageDeserializer.__decode_data', M + 'udpdeserializer.py:223')])
p('C15', 'Circuits of different peers never mix',
  'Each peer address and port has one circuit: it is created on first use, the same one is found again for an equal address and port, and no operation for one peer changes the sequence numbers, owed acks, outstanding packets or destination of the circuit of another. A removed circuit is gone and the others stay.',
  ['histories'], 'every history of sends, receptions, additions and removals for any peers', 'Tests use one or two peers and do not interleave them.',
  [M + 'circuit.py', M + 'udpdispatcher.py', B + 'network/net.py'], [('CircuitManager', M + 'circuit.py:124'), ('UDPDispatcher.find_circuit', M + 'udpdispatcher.py:106'), ('NetUDPClient.receive_packet', B + 'network/net.py:44')],
  state=[('circuit_map', 'circuit by (ip, port)', M + 'circuit.py:128')])
p('C16', 'Messages barred from UDP are neither sent nor delivered over UDP',
  'A message that message.xml lists with a flavour other than template is never put on the wire and, if it arrives over UDP, is never delivered to a subscriber; every message that is listed as template or not listed is allowed. The list that decides is the one the caller supplied, or the shipped one.',
  ['inputs', 'configurations'], 'every message name and every message.xml', 'Tests validate two names and never send or receive a barred message.',
  [M + 'message_dot_xml.py', M + 'udpserializer.py', M + 'udpdeserializer.py', M + 'udpdispatcher.py'], [('MessageDotXML.validate_udp_msg', M + 'message_dot_xml.py:53')])
p('C17', 'Events call each subscriber exactly once, in order, with its own arguments',
  'Firing an event calls every handler subscribed at that moment exactly once, in subscription order, with the fired data followed by the arguments it subscribed with, also if handlers subscribe or unsubscribe while it fires; an exception of a handler reaches the firer. Unsubscribing removes exactly one subscription with the same handler and arguments and raises ValueError if there is none; the length is the number of subscriptions, and clearing leaves none.',
  ['histories', 'programs'], 'every history of subscribing, unsubscribing and firing, every behaviour of handlers', 'Tests subscribe one or two well-behaved handlers.',
  [B + 'events.py'], [('Event', B + 'events.py:26')], state=[('subscribers', 'subscriptions in order', B + 'events.py:31')])
p('C18', 'Messages reach exactly the subscribers of their name',
  'Handling a message calls the subscribers registered for its name, each once and with that message, and no subscriber of another name; a message nobody registered for is ignored, and an exception of a subscriber reaches the caller. Registering the same name again gives the same notifier with its subscribers kept. A UDP datagram is parsed and delivered if its name is registered or deferred parsing is off, and is otherwise skipped without being delivered.',
  ['histories', 'inputs'], 'every registration history and every message', 'Tests register one or two names.',
  [M + 'message_handler.py', M + 'udpdispatcher.py', M + 'udpdeserializer.py'], [('MessageHandler', M + 'message_handler.py:29'), ('MessageHandledNotifier', M + 'message_handler.py:84')])
p('C19', 'Event queue responses become the messages they describe',
  'Decoding an event queue response gives one message per event, in order, with the event\'s name, the id of the response batch and the host of the queue; for a templated message its body becomes one block per listed repetition with every field and value given, and for any other message a single Message_Data block holding the fields of its body. Each decoded message is handed to the message handler once, in order; a response without events gives no message (an event for which a subscriber raises ends its batch).',
  ['inputs'], 'every response structure', 'Tests decode one or two canned responses.',
  [B + 'event_queue.py'], [('EventQueueClient._decode_eq_result', B + 'event_queue.py:264'), ('EventQueueClient._parse_result', B + 'event_queue.py:238')])
p('C20', 'Every event queue batch is handled once and acked by the next poll',
  'Polling starts without an ack; after a batch is received the next polls acknowledge exactly its id until another response arrives, an empty response (timeout) makes the next poll carry no ack, and a failed poll neither delivers events nor changes the id to be acked. No batch is delivered more than once, and when polling is stopped the last received batch is acknowledged with a final done message, if one is to be acked.',
  ['histories', 'fault_sequences'], 'every sequence of responses, timeouts and failures, and every stopping point', 'Tests never run the polling loop against failures.',
  [B + 'event_queue.py'], [('EventQueueClient._processRegionEventQueue', B + 'event_queue.py:164')],
  state=[('last_id', 'id of the last batch, -1 for none', B + 'event_queue.py:92')])
p('C21', 'Capability calls map HTTP results and errors faithfully',
  'A capability call sends the LLSD form of a list or dict payload, with its content type and any extra headers, to the capability\'s own URL, and returns the parsed LLSD body. A 404 raises the resource-not-found error with that URL and any other HTTP error the resource error with URL, code, message, body and method. A response or payload of a type that is not understood raises the deserializer-not-found error, and text that is not LLSD the deserialization error; nothing else is returned in these cases.',
  ['inputs', 'fault_sequences'], 'every payload, header, content type, body and HTTP failure', 'Tests cover one success and one or two error codes.',
  [B + 'caps.py', B + 'helpers.py', B + 'exc.py'], [('Capability', B + 'caps.py:35'), ('LLSDDeserializer', B + 'helpers.py:215')])
p('C22', 'A seed capability yields the requested capabilities',
  'Asking a seed capability for names posts exactly those names and gives one capability per requested name, with that name and the URL granted for it, sharing the HTTP client; a requested name that was not granted is an error, and names that were not requested do not appear.',
  ['inputs'], 'every list of names and every response', 'Tests request one fixed list.',
  [B + 'caps.py'], [('SeedCapability.get', B + 'caps.py:177')])
p('C23', 'Messages hold and export every block and field they were given',
  'Building a message from blocks (or lists of blocks) keeps all of them under their names in the order given, and a block keeps every field with its value; reading them back by name and index gives the same values. The dict and LLSD forms and the LLSD builder list every block repetition in order with every field name and value, lose none and invent none.',
  ['inputs'], 'every message structure', 'Tests build messages with one or two blocks and no repeated blocks.',
  [M + 'message.py', M + 'template.py', M + 'llsd_builder.py'], [('MsgData.add_block', M + 'template.py:36'), ('MsgBlockData.add_variable', M + 'template.py:71'), ('Message.to_dict', M + 'message.py:126'), ('LLSDMessageBuilder.build_message', M + 'llsd_builder.py:36')])
p('C24', 'Quiet settings win over spammy settings',
  'For every combination of the quiet, spammy and test-logging options the settings have their documented values: quiet turns all logging off and keeps spammers disabled whatever spammy says, spammy alone adds hex and LLSD logging and enables spammers, and neither changes anything outside logging. Settings objects do not share mutable state.',
  ['configurations'], 'all combinations of the options', 'Tests try the default and the quiet combination only.',
  [B + 'settings.py'], [('Settings', B + 'settings.py:20')])
p('C25', 'Queued messages are sent exactly once, in order, as requested',
  'Messages put into the outgoing queue are sent exactly once each to the manager\'s own host, in the order in which they were put there except that urgent ones go to the front, and reliably iff they were queued as reliable. Sending immediately uses the reliable or ordinary path as asked. Stopping the monitors stops the loop and the event queue, and also works if there is no event queue; a datagram that cannot be decoded does not end the loop.',
  ['histories'], 'every history of queueing and sending', 'Tests queue one or two messages and never drain the queue.',
  [B + 'message_manager.py'], [('MessageManager.enqueue_message', B + 'message_manager.py:151'), ('MessageManager._udp_dispatcher', B + 'message_manager.py:168'), ('MessageManager.send_udp_message', B + 'message_manager.py:193')],
  state=[('outgoing_queue', 'messages waiting to be sent', B + 'message_manager.py:109')])
p('C26', 'Helper conversions are exact, bounded and invertible',
  'A float packed into 16 or 8 bits between two bounds unpacks to the point of that range its number selects (lower bound for 0, upper for the maximum, monotone in between, never outside the range), except that a value nearer to zero than one step becomes zero. Turning an integer into bytes gives its low 32 bits little endian, bytes to hex gives two upper-case digits per byte separated by single spaces, and hex text converts back to exactly its bytes or raises the parsing error.',
  ['inputs'], 'every byte string, offset, pair of bounds and integer', 'Tests try a few values.',
  [B + 'helpers.py'], [('Helpers.packed_u16_to_float', B + 'helpers.py:84'), ('Helpers.packed_u8_to_float', B + 'helpers.py:103'), ('Helpers.int_to_bytes', B + 'helpers.py:132'), ('Helpers.bytes_to_hex', B + 'helpers.py:42')])
p('C27', 'Vectors, quaternions and UUIDs behave as values',
  'Vectors, quaternions and UUIDs made from components, text or bytes at an offset hold exactly those values, give them back as bytes, data and tuple, and copies are equal and independent; a quaternion read from 12 bytes gets the non-negative W that makes it a unit rotation (0 if there is none). Parsing a vector text needs three numbers and otherwise raises ValueError, and squared distance is the sum of squared differences. UUID equality and inequality compare values, xor is bitwise, and asking for a random UUID replaces only the nil UUID.',
  ['inputs'], 'all values, texts, buffers and offsets', 'Tests sample a couple of values each; offsets, xor, copies and 12-byte quaternions are hardly sampled.',
  [B + 'datatypes.py'], [('Vector3', B + 'datatypes.py:33'), ('Quaternion', B + 'datatypes.py:107'), ('UUID', B + 'datatypes.py:181')])
p('C28', 'The transport sends to the right address and accounts for every packet',
  'A message for a valid host goes out as one datagram to that host\'s address and port, its bytes are returned and the sent count grows by one; a host without address or port, or a message that cannot be serialized, sends nothing, raises nothing and is not counted. Receiving gives the datagram (of up to 10000 bytes) with its size and remembers its sender, a socket error gives an empty datagram and keeps the sender, and every non-empty datagram received adds one to the received count.',
  ['inputs', 'fault_sequences', 'histories'], 'every host, message, datagram and socket failure', 'Tests send one packet through a mock socket.',
  [B + 'network/net.py', M + 'udpdispatcher.py', M + 'circuit.py'], [('NetUDPClient', B + 'network/net.py:28'), ('UDPDispatcher.__send_message', M + 'udpdispatcher.py:187'), ('Host.is_ok', M + 'circuit.py:31')])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
