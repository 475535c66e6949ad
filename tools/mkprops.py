#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
M = 'pyogp/lib/base/message/'
B = 'pyogp/lib/base/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook}})

UNIMP = ' The existing tests of this code do not even import here (no greenlet), so none of the 25 stable tests reaches it.'

prop('C01', 'Encoding a message for UDP and decoding it gives the message back',
 'For every message of a message template whose fields hold values valid for their declared types, encoding it for UDP and decoding the datagram yields the same message name, sequence number, reliable flag and appended acknowledgement ids, the same blocks in the same number and order, and the same field values. Equality is exact, except that single-precision fields are rounded to 32 bits, a rotation is carried as its vector part with the sign that makes the real part non-negative, and variable-length text is compared in UTF-8 without trailing NULs (fields named Data are binary and come back byte for byte).',
 ['inputs'], 'all messages of the embedded template and of generated templates, all flag combinations, sequence numbers up to 2^32-1, 0-255 acks, 0-255 instances of repeated blocks, all field values in range',
 'Two fixed PacketAck/Chat messages are round-tripped by hand in tests that cannot run here; the space of (template, block counts, values, flags) is unbounded.' + UNIMP,
 [M+'udpserializer.py', M+'udpdeserializer.py', M+'data_packer.py', M+'data_unpacker.py', M+'template_dict.py', B+'datatypes.py'],
 [('UDP serializer', M+'udpserializer.py: serialize, build_block'), ('UDP deserializer', M+'udpdeserializer.py: deserialize'), ('per-type packers and unpackers', M+'data_packer.py, data_unpacker.py')],
 ['return value of serialize', 'message returned by deserialize'])

prop('C02', 'Outgoing datagrams have exactly the byte layout the template prescribes',
 'The datagram produced for a valid message is: flags byte, 4-byte big-endian sequence number, zero extra-header length, the message number in the 1/2/4-byte form of its frequency, then every template block in template order (a count byte before a variable block) with every field in template order, then the appended acknowledgements (4-byte big-endian ids and a count byte) exactly when the acknowledgement flag is set; the body is never zero-coded and the flags never claim it is. Integers and floats are little-endian, IP ports big-endian, IDs, IP addresses and fixed fields raw bytes, and a variable field is a little-endian length of its declared width followed by the bytes, NUL-terminated unless the field is named Data. The layout does not depend on the order in which blocks or fields were supplied nor on what was encoded before, and encoding a message leaves its content as it was.',
 ['inputs', 'configurations'], 'all messages of the embedded and of generated templates, all supply orders, all values in range',
 'The tests compare two PacketAck byte strings; a round trip cannot see errors that encoder and decoder share.' + UNIMP,
 [M+'udpserializer.py', M+'data_packer.py', M+'template_dict.py', M+'msgtypes.py'],
 [('block and field order from the template', M+'udpserializer.py: build_block'), ('endianness table', M+'data_packer.py'), ('frequency-prefixed message number', M+'template_dict.py: build_message_ids')],
 ['bytes returned by serialize / given to the UDP client'])

prop('C03', 'Every valid incoming datagram is decoded to exactly what it carries',
 'For every datagram that follows the wire format and carries at least one block instance or is of a message without blocks - with any flags, any sequence number, an extra header of any length, a body sent plain or zero-coded with any division of zero runs, any bytes after the last template field, and any number of appended acknowledgements - decoding yields the message that the template reading of those bytes gives: name, sequence number, flags, ack ids, blocks, instance counts, order and every field value. An extra header, zero-coding, trailing bytes and appended acknowledgements never change the decoded body.',
 ['inputs'], 'all datagrams produced by an independent encoder from embedded and generated templates',
 'Three recorded packets are checked for a name or two fields; zero-run splits, extra headers, appended acks and their combinations are not sampled.' + UNIMP,
 [M+'udpdeserializer.py', M+'data_unpacker.py', M+'template_dict.py', M+'message.py'],
 [('ack stripping, zero-code expansion, header decoding', M+'udpdeserializer.py: deserialize, zero_code_expand'), ('block/field walk', M+'udpdeserializer.py: __decode_data')],
 ['message returned by deserialize'])

prop('C04', 'Arbitrary bytes never crash the decoder or produce a partial message',
 'Decoding any byte string terminates and ends in one of three ways: a message, nothing, or one of the documented message-system errors - never another exception. A message is produced only if the datagram has a complete header and holds all the data its template, block counts and length prefixes call for, and the appended acknowledgements it announces. Whatever was fed to a decoder before, a valid datagram decodes to the same result as on a fresh decoder.',
 ['inputs', 'histories'], 'all byte strings (random, truncated, bit-flipped, spliced valid datagrams, lying counts and lengths), all sequences of them on one decoder',
 'No test feeds malformed input; UDP input is attacker-controlled and the space is all byte strings.' + UNIMP,
 [M+'udpdeserializer.py', M+'data_unpacker.py', B+'exc.py'],
 [('length checks before every read', M+'udpdeserializer.py: __decode_data, deserialize'), ('error wrapping', M+'data_unpacker.py')],
 ['return value / exception of deserialize', 'exception of the dispatcher receive path'])

prop('C05', 'The template parser reads every template file faithfully',
 'Parsing a message template file yields exactly its messages in file order, each with the declared name, frequency, number, trust, encoding and deprecation, its blocks in order with their kind and repeat number, and their fields in order with type and size. Looking a message up by name or by (frequency, number) finds exactly that message and an unknown name or number finds nothing. Whole-line and trailing comments, blank lines, indentation, spacing and whether braces stand on lines of their own make no difference (the format is line-oriented: at most one opening brace per line, before anything else, and one closing brace, after everything else), parsing the same file again gives the same result, and a fixed or variable field of size zero is reported as a template parsing error.',
 ['inputs', 'configurations'], 'all syntactically valid template files, generated and embedded, in any layout; all lookups; repeated parsing of one file handle',
 'The tests count messages and check a handful of entries of the one embedded file.',
 [M+'template_parser.py', M+'template_dict.py', M+'template.py', M+'data/message_template.msg'],
 [('line-driven parser', M+'template_parser.py'), ('name and (frequency, number) indexes', M+'template_dict.py')],
 ['parsed templates', 'get_template / get_template_by_pair'])

prop('C06', 'Invalid outgoing messages are refused whole and leave no trace',
 'A message that does not fit its template - unknown name, missing block or field, wrong number of instances of a single or fixed-count block, more than 255 instances, variable data longer than its length prefix can express, fixed data of the wrong size, a value of the wrong type - is refused: encoding reports it (a message-system error, or no result for an unknown name) and sending returns nothing, does not raise, puts no bytes on the wire, does not count as sent and is not awaited for acknowledgement. Pending acknowledgements are still delivered and every later valid message is sent exactly as if the refused one had only used up its sequence number. The same holds for a message whose datagram the socket refuses, and for a host without address or port, which gets nothing and uses nothing up.',
 ['inputs', 'histories'], 'all single-fault mutations of valid messages, at any position in a history of sends, reliable or not, under any logging settings',
 'No test sends an invalid message.' + UNIMP,
 [M+'udpserializer.py', M+'udpdispatcher.py', M+'data_packer.py', M+'circuit.py'],
 [('template checks while building blocks', M+'udpserializer.py: build_block'), ('error handling around sending', M+'udpdispatcher.py: __send_message')],
 ['bytes given to the UDP client', 'return values', 'later datagrams', 'packets_out'])

prop('C07', 'One circuit per peer; each numbers its datagrams 1, 2, 3, ...',
 'Each distinct (address, port) has exactly one circuit no matter through which host object or by sending or receiving it is reached, and different peers never share one. The datagrams sent to a peer carry sequence numbers 1, 2, 3, ... in send order - counting reliable messages, unreliable messages and acknowledgement packets alike, independent of traffic to other peers and of everything received; a retransmission repeats its number and uses up none - until its circuit is removed, after which numbering restarts. Every datagram goes to the peer it was addressed to and nowhere else, and the packet counters equal the datagrams sent and received.',
 ['histories'], 'all interleavings of sends, receives, ack processing and circuit removal over several peers sharing addresses or ports',
 'One test looks up two hosts and one sends two packets; interleavings over many peers are unbounded.' + UNIMP,
 [M+'circuit.py', M+'udpdispatcher.py', B+'network/net.py'],
 [('circuit map', M+'circuit.py: CircuitManager'), ('sequence counter', M+'circuit.py: Circuit.next_packet_id'), ('find or create', M+'udpdispatcher.py: find_circuit')],
 ['datagrams and destinations given to the UDP client', 'circuit_map', 'packets_in/packets_out'])

prop('C08', 'The awaited-acknowledgement set is exactly sent reliables minus acked ones',
 'At every point of every history the messages a circuit awaits acknowledgement for are exactly those sent reliably on it and not yet acknowledged by that peer, each under its own sequence number, and the outstanding count equals their number. An acknowledgement, whether appended to a datagram or carried by an acknowledgement packet, retires exactly the message with that sequence number on that circuit; duplicate, unknown or foreign acknowledgements change nothing.',
 ['histories'], 'all histories of reliable and unreliable sends and of inbound acks (appended or in packets; valid, duplicate, unknown, for other circuits) over several peers',
 'One test adds one reliable packet and reads a counter.',
 [M+'circuit.py', M+'udpdispatcher.py'],
 [('outstanding map and counter', M+'circuit.py: add_reliable_packet, ack_reliable_packet'), ('ack extraction', M+'circuit.py: handle_packet')],
 ['circuit.unacked_packets', 'circuit.unack_packet_count'],
 [{'name': 'unacked_packets', 'meaning': 'reliable messages awaiting an ack, by sequence number', 'where': M+'circuit.py'}])

prop('C09', 'Unacknowledged reliable messages are retransmitted, acknowledged ones never',
 'When acknowledgements are processed, a reliable message that was sent with retries left and has not been acknowledged is sent again to the same peer with the resent flag, the same sequence number and otherwise the same bytes, using up one of its retries. A message that has been acknowledged, or that was sent unreliably, is never sent again. Only these, and messages explicitly sent as a retry, carry the resent flag.',
 ['histories', 'fault_sequences'], 'all histories of reliable and unreliable sends, ack arrivals, losses and ack processing',
 'No test loses a packet and processes acks afterwards.' + UNIMP,
 [M+'udpdispatcher.py', M+'circuit.py'],
 [('resend pass', M+'udpdispatcher.py: process_acks, __resend_all_unacked, send_retry')],
 ['datagrams given to the UDP client'])

prop('C10', 'Every reliable datagram received is acknowledged to its sender, nothing else is',
 'For each receipt of a reliable datagram - decoded, skipped because nobody handles it, of unknown type or refused over UDP - the next ack processing sends its sequence number exactly once in an acknowledgement packet to the peer it came from, and to nobody else; duplicates are acknowledged per receipt. Unreliable datagrams are never acknowledged, no acknowledgement packet carries more than 255 ids, and afterwards nothing is pending. Acknowledgements appended to other outgoing messages (retransmissions aside, which repeat theirs) only ever carry ids received reliably from that same peer and not yet processed, at most 255, and only when the datagram is flagged so.',
 ['histories'], 'all histories of inbound datagrams (reliable or not, handled, skipped, unknown, banned, duplicated, up to several hundred between ack rounds), sends and ack rounds over several peers',
 'The tests ack one packet; batching over 250, mixed peers, skipped or unknown packets and duplicates are not reached.' + UNIMP,
 [M+'udpdispatcher.py', M+'circuit.py', B+'network/net.py'],
 [('ack collection', M+'circuit.py: handle_packet, collect_ack; '+M+'udpdispatcher.py: receive_check'), ('ack packets', M+'udpdispatcher.py: __send_acks'), ('piggy-backing', M+'circuit.py: prepare_packet')],
 ['PacketAck datagrams and appended acks given to the UDP client', 'has_unacked'])

prop('C11', 'Only messages message.xml allows over UDP are sent or delivered over UDP',
 'A message that message.xml assigns to another transport than the UDP template system is neither sent nor delivered over UDP, reliably or not, by every layer from the manager to the decoder; every message it does not list, or lists with the template flavour, is. The decision uses the message.xml supplied by the user when there is one, and otherwise the embedded one, and never depends on case, settings or on what was asked before.',
 ['inputs', 'configurations'], 'all message names of the embedded template, all generated message.xml contents (any flavours, entries without flavour), all layers',
 'Two names of the embedded message.xml are checked; the layers that apply the policy are not reached.' + UNIMP,
 [M+'message_dot_xml.py', M+'udpserializer.py', M+'udpdeserializer.py', M+'udpdispatcher.py', B+'message_manager.py', M+'data/message.xml'],
 [('policy lookup', M+'message_dot_xml.py: validate_udp_msg'), ('enforcement', M+'udpserializer.py: serialize; '+M+'udpdeserializer.py: deserialize')],
 ['bytes given to the UDP client', 'messages delivered'])

prop('C12', 'Each received message reaches exactly its subscribers, once, in order',
 'Every accepted inbound message is handed exactly once to every handler currently subscribed to its name, in subscription order, with its full content, and to no handler of another name. Whether unwatched packets are parsed or skipped changes nothing a subscriber sees nor what is acknowledged, and with packet handling switched off nothing is delivered, while the receive path keeps working. Outgoing messages are shown to subscribers exactly when that is enabled.',
 ['histories', 'configurations'], 'all histories of register/subscribe/unsubscribe/receive/send over several names and handlers, under all combinations of the handling and deferral settings, with and without a supplied handler registry',
 'One doctest subscribes one handler to one message.' + UNIMP,
 [M+'message_handler.py', M+'udpdispatcher.py', M+'udpdeserializer.py', B+'events.py'],
 [('name to notifier map', M+'message_handler.py'), ('deferred parsing', M+'udpdeserializer.py: deserialize'), ('dispatch', M+'udpdispatcher.py: receive_check')],
 ['handler invocations and the messages they see'])

prop('C13', 'Event subscriptions behave as an ordered list of (handler, arguments)',
 'Firing an event calls each subscription exactly once, in subscription order, with the fired value followed by the positional and keyword arguments given at subscription, including duplicates; the length is the number of subscriptions. Unsubscribing removes exactly one subscription with that handler and those arguments (the earliest) and reports a ValueError, changing nothing, if there is none; clearing removes all. Handlers subscribed when the event fires are each called even if handlers subscribe or unsubscribe meanwhile, and an error in a handler reaches whoever fired the event.',
 ['histories'], 'all sequences of subscribe, unsubscribe (present or absent, with arguments), clear and fire, including handlers that subscribe, unsubscribe or raise while being called',
 'One test subscribes, fires once and unsubscribes.',
 [B+'events.py', M+'message_handler.py'],
 [('subscriber list', B+'events.py'), ('per-message notifier', M+'message_handler.py: MessageHandledNotifier')],
 ['handler calls', 'len', 'exceptions'])

prop('C14', 'The event-queue client delivers each event once, in order, and acks it',
 'While running, the client polls the capability once per interval, acknowledging in each poll the id of the last response it received and nothing on the first poll, and delivers every event of every response exactly once, in order, before the next poll; after a failed poll it delivers nothing, keeps running and re-acknowledges what it last received. Once stopped it starts no further poll (a response already being received or handled is completed), then sends one final poll that acknowledges the last id and says it is done (if it received anything), delivers nothing further, and reports itself not running even if that last poll fails. An event that cannot be interpreted, or a handler that fails, never stops the polling.',
 ['histories', 'fault_sequences', 'schedules'], 'all scripts of responses (events, empty, none, malformed), failures at any poll, stop at any point of the schedule (and starting again), failing handlers',
 'One test starts and stops against a dead address; no response or failure sequence is exercised.' + UNIMP,
 [B+'event_queue.py', B+'caps.py'],
 [('poll loop', B+'event_queue.py: _processRegionEventQueue'), ('stop', B+'event_queue.py: stop')],
 ['payloads posted to the capability', 'messages delivered to handlers', 'virtual time of polls'])

prop('C15', 'Event-queue events become messages with exactly the same content',
 'Each event of an event-queue response becomes one message with the event\'s name, the response id and the originating host. An event whose name is in the message template carries each block of the body with all its instances in order and all their fields and values; any other event carries one Message_Data block with every top-level entry of the body. No event, block instance or field is lost, invented, merged or reordered.',
 ['inputs'], 'all event-queue responses: any mix of template and non-template events, any bodies with repeated blocks and LLSD values, as parsed data or as LLSD XML',
 'Three recorded responses are checked for message names only.' + UNIMP,
 [B+'event_queue.py', M+'message.py', M+'template_dict.py'],
 [('event decoding', B+'event_queue.py: _decode_eq_result')],
 ['messages delivered to handlers'])

prop('C16', 'LLSD payloads survive serialisation; bad LLSD fails in the documented way',
 'Every list or map built from LLSD values, serialised by the list/map serializers and parsed by the LLSD deserializer, comes back equal, from a string or from a file; a payload that legitimately is zero, empty or false is not mistaken for a failure unless it is the boolean false. For every other byte string the deserializer either returns a value or raises the documented deserialization error naming the payload, and never anything else; input that is not a byte string yields nothing.',
 ['inputs'], 'all nested LLSD values (maps, arrays, strings, integers, reals, booleans, uuids, dates, binaries, undef); all byte strings, including mutated LLSD in XML, notation and binary form',
 'The doctests serialise two flat containers and parse two bad strings.' + UNIMP,
 [B+'helpers.py', B+'exc.py'],
 [('serializers', B+'helpers.py: ListLLSDSerializer, DictLLSDSerializer'), ('deserializer', B+'helpers.py: LLSDDeserializer')],
 ['serialised string', 'returned value / exception'])

prop('C17', 'Capabilities do exactly the request asked and classify every response',
 'A capability call makes exactly one request of the right method to its URL, with the LLSD serialisation of the payload (or the custom payload verbatim), the LLSD content type and the caller\'s extra headers, and returns the parsed LLSD of the response. A 404 becomes resource-not-found with the URL; any other HTTP error becomes a resource error with URL, code, message, body and method; a missing or unsupported content type (charset parameters aside) becomes deserializer-not-found; an unparseable body becomes deserialization-failed; payloads other than lists and maps are refused without a request. A seed capability asks for exactly the requested names and returns one capability per name with the granted URL, using the same client.',
 ['inputs', 'fault_sequences'], 'all payloads, headers, statuses, content types and bodies; all name lists for seed capabilities',
 'A handful of fixed mock responses are used.' + UNIMP,
 [B+'caps.py', B+'helpers.py', B+'exc.py'],
 [('request and error mapping', B+'caps.py: Capability'), ('seed', B+'caps.py: SeedCapability.get')],
 ['requests seen by the REST client', 'return values / exceptions'])

prop('C18', 'The HTTP client transfers requests and responses unchanged',
 'A GET or POST through the standard HTTP client reaches the server with that method, path, query, headers and body bytes, and the returned response has the server\'s status code, headers and body bytes. Every HTTP error status raises the library\'s HTTP error with that code, reason and readable body, for both methods.',
 ['inputs'], 'all bodies (binary, empty, large), headers, paths, and status codes 200-599 that do not redirect, over a loopback server',
 'One doctest gets and posts a short ASCII text.',
 [B+'network/stdlib_client.py', B+'exc.py'],
 [('urllib2 wrapper', B+'network/stdlib_client.py')],
 ['what a loopback HTTP server receives', 'returned response / exception'])

prop('C19', 'Vectors, rotations and IDs convert to and from bytes and text losslessly',
 'Reading back the bytes of a vector, rotation or UUID at any offset gives an equal value (floats to 32-bit precision; a rotation given as 12 bytes gets the non-negative real part that normalises it, zero if none exists), copies are equal but independent, and tuple, text and parse forms agree. Vector parsing accepts exactly three numbers with or without angle brackets and otherwise raises ValueError; squared distance is symmetric, non-negative and zero for equal vectors. UUID equality, inequality and hashing are consistent and match the 16 bytes, XOR is bytewise (self-inverse, with the null ID as identity), and a random ID replaces only a null one.',
 ['inputs'], 'all floats including infinities, NaN, denormals and overflow to 32 bits, all byte strings and offsets, all UUIDs and UUID spellings',
 'The tests check one or two fixed values per type.',
 [B+'datatypes.py'],
 [('struct packing', B+'datatypes.py: Vector3, Quaternion, UUID')],
 ['values, bytes and strings returned'])

prop('C20', 'Numeric and text helpers follow their arithmetic definition',
 'Hex, base64, uuencoding (of up to 45 bytes) and integer-to-bytes helpers are exact: hex text decodes back to the bytes (bad hex raises the documented parsing error), an integer gives its four little-endian bytes. Dequantised 8- and 16-bit values lie within the requested range, are monotone in the code, hit the bounds at the extreme codes and are zero exactly when less than one step from zero, at any buffer offset; packing a rotation to its vector part flips the sign exactly when the real part is negative. A timed wait returns true once its whole seconds have elapsed and not before, unless stopped.',
 ['inputs', 'schedules'], 'all bytes, all 65536 codes, all ranges and offsets, all quaternions, all integers from -2^31 to 2^32-1, all clock schedules',
 'None of these helpers has a test that runs here.' + UNIMP,
 [B+'helpers.py'],
 [('helpers', B+'helpers.py: Helpers'), ('wait loop', B+'helpers.py: Wait')],
 ['returned values'])

prop('C21', 'The manager sends queued messages once, in order, and survives bad datagrams',
 'Every message queued with the manager is sent exactly once to its region host with its requested reliability while the monitors run, urgent messages before those already waiting and others in queueing order, and nothing is sent while they do not run; a message that cannot be sent never blocks the ones behind it, and a failing handler of outgoing messages keeps none from being sent. Every inbound datagram is processed and reliable ones acknowledged even after malformed, unknown or empty datagrams or failing handlers, none of which ends the loop. Starting runs the UDP loop and, if the capability is present and enabled, the event queue; stopping ends both without error, whether or not there is an event queue.',
 ['histories', 'schedules', 'fault_sequences'], 'all interleavings of queueing, inbound datagrams (valid or not), handler failures, start and stop with the loop\'s yields, with and without an event queue',
 'One test queues two messages without running the loop; no datagram ever arrives.' + UNIMP,
 [B+'message_manager.py', M+'udpdispatcher.py', B+'event_queue.py'],
 [('outgoing queue', B+'message_manager.py: enqueue_message'), ('loop', B+'message_manager.py: _udp_dispatcher'), ('start/stop', B+'message_manager.py: start_monitors, stop_monitors')],
 ['datagrams given to the UDP client', 'handler calls', 'exceptions in coroutines'])

prop('C22', 'Logging and diagnostic settings never change behaviour',
 'Under every combination of the logging and diagnostic settings - including quiet and spammy presets - the same history of sends, receives, ack processing, event-queue polls and capability calls produces the same datagrams, requests, deliveries, return values, errors and bookkeeping. The quiet and spammy presets set the documented switches, quiet taking precedence, and changing one settings object never affects another.',
 ['configurations', 'histories'], 'all combinations of the logging switches, crossed with generated histories including failing sends, binary payloads and malformed input',
 'The settings tests read three attributes of two presets.',
 [B+'settings.py', M+'udpdispatcher.py', M+'udpdeserializer.py', M+'message_handler.py', B+'caps.py', B+'event_queue.py', B+'message_manager.py'],
 [('guarded logging statements', 'all modules'), ('presets', B+'settings.py')],
 ['everything C06-C17 observe, compared between two settings'])

prop('C23', 'The LLSD message builder returns exactly what was added',
 'Building after any sequence of new message, next block and add data calls returns a map from each block name to the list of its instances in the order they were started, each holding exactly the last value added under each name since, together with the number of distinct blocks. The builder reports itself built exactly between a build and the next change, and building again returns an equal result; what was built earlier stays as it was, and starting a new message forgets the previous one.',
 ['histories'], 'all sequences of builder calls with arbitrary names and values',
 'One test builds one message with two blocks.',
 [M+'llsd_builder.py', M+'template.py'],
 [('block accumulation', M+'llsd_builder.py')],
 ['return values of build_message and is_built'])

prop('C24', 'Message objects give back what they were built from, in every view',
 'A message built from blocks (singly or in lists) gives, for every block name, its instances in the order added and, in each, every field\'s value, identically through item access, attribute maps, variable lookup and the dictionary view, which contains every instance of every block. The LLSD form of a message whose values LLSD can express parses back to that view. Rendering any message as text - including unset, binary, non-ASCII and oddly sized values, whether built locally or decoded - never fails, by the logging handlers neither, and mentions the name and every block and field. Reading or rendering never changes the message, and two messages never share state.',
 ['inputs'], 'all block/field structures, all value types accepted by the wire types, messages built and messages decoded',
 'The tests build three small messages and read integers back.',
 [M+'message.py', M+'template.py'],
 [('containers', M+'template.py: MsgData, MsgBlockData, MsgVariableData'), ('views', M+'message.py: to_dict, data, __repr__')],
 ['values returned by the accessors', 'text forms'])

prop('C25', 'The UDP socket client reports each datagram with its own sender',
 'Through real sockets, each datagram sent arrives with exactly its bytes at the host named, and each datagram received is returned with its exact bytes and length, and the sender reported for it is its own address and port and stays so however many datagrams arrive later from elsewhere. Receiving with nothing to read or on a broken socket yields an empty result instead of an error, sending nothing is refused, and a dispatcher over this client keeps one circuit and acknowledges to the right peer per remote address.',
 ['histories', 'fault_sequences'], 'all interleavings of datagrams (any bytes up to 10000) from several loopback peers, with empty reads and socket errors between',
 'No test opens a socket; the mock client the tests use creates a new sender per datagram, which the real one did not.',
 [B+'network/net.py', M+'circuit.py', M+'udpdispatcher.py'],
 [('socket wrapper', B+'network/net.py: NetUDPClient')],
 ['bytes and addresses at loopback peers', 'get_sender after each receive'])

prop('C26', 'Errors keep what they were raised with and can always be shown',
 'Every error the library defines can be raised and caught under its documented families (network, message system, deserialization, agent domain, region domain, login; all under the common base error), under no other of them and under no other concrete error (a bad start location being a login error). It keeps the exact objects it was given, positional or by keyword, under the documented attributes, with the documented defaults for those left out. Turning it into text never fails, whatever values it holds - text, bytes, numbers, tuples, maps, hosts, other errors; unicode beside or outside ASCII, which Python 2 cannot render, excepted - and mentions the values its text is documented to show.',
 ['inputs'], 'all error classes crossed with all values of their parameters, given positionally or by keyword',
 'No test constructs an error by itself or renders one.',
 [B+'exc.py'],
 [('error classes', B+'exc.py: __init__ and __str__ of each class')],
 ['attributes, families and text of the errors'])

prop('C27', 'Objects used side by side behave as if each were alone',
 'Any number of dispatchers, managers, event queues, event objects and message builders in one process, their operations interleaved in any way, each behave exactly as when the same operations are done on it alone in a fresh process: what it sends, delivers, returns, raises and remembers is the same. No circuits, subscriptions, queued messages, event-queue positions, templates or settings leak from one to another.',
 ['histories', 'schedules'], 'all interleavings of generated histories over two to four objects of any kinds',
 'The tests use one object of each kind at a time.' + UNIMP,
 [M+'udpdispatcher.py', B+'message_manager.py', B+'event_queue.py', B+'events.py', M+'llsd_builder.py', M+'message_handler.py', M+'circuit.py'],
 [('instance state and default arguments', 'all modules'), ('template dictionary shared by dispatchers', M+'template_dict.py')],
 ['everything C06-C16, C21 and C23 observe, compared between together and alone'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
