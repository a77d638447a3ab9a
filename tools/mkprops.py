import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/structure/"
PK=["src/connect.rs","src/connack.rs","src/publish.rs","src/confirmation.rs","src/subscribe.rs","src/suback.rs","src/unsubscribe.rs","src/unsuback.rs","src/disconnect.rs","src/auth.rs","src/packet.rs",S+"properties.rs",S+"codes.rs",S+"common.rs"]
p("C01","Encode then decode returns the same packet",
 "For every packet value of all fifteen types and every protocol version 3, 4 and 5: if encoding succeeds, decoding the produced bytes at the same version succeeds, uses all of them, and yields the same packet. The only permitted differences are fields the wire format of that version cannot carry (version-5-only fields below version 5, values fixed by the protocol, an empty property set versus none, bookkeeping flags), which come back as their documented default.",
 ["inputs","configurations"],"every packet value accepted by the encoder, at protocol versions 3, 4 and 5",
 "The tests encode and decode a few dozen hand-written packets, most in one direction only; several encoders (CONNACK properties, non-success acknowledgements) are never exercised.",
 PK+["src/mqtt_writer.rs","src/byte_reader.rs"],
 [("Packet::encode / Packet::decode pairs","src/*.rs, one impl per packet type"),("Properties::to_pairs / from_properties pairs",S+"properties.rs")],
 ["MqttPacket::encode","PacketDecoder::decode_packet"])
p("C02","Encoded bytes are exactly one well-framed packet",
 "Whenever encoding succeeds, the output is exactly one control packet: the first byte carries the packet type and the flag bits the protocol prescribes, the remaining-length field is a minimal variable byte integer equal to the number of bytes that follow, and (version 5) every property block is preceded by a minimal length equal to its exact size.",
 ["inputs","configurations"],"every packet value accepted by the encoder, every size up to the protocol maximum, versions 3, 4, 5",
 "Lengths are computed by hand separately from the bytes written; tests only compare a handful of short packets, so a length that is wrong for one field combination or at a size boundary is not seen.",
 PK+["src/mqtt_writer.rs"],
 [("length accumulated before writing","each Packet::encode"),("MqttWriter::write_variable_num / write_sized","src/mqtt_writer.rs"),("FixedHeader::encode",S+"common.rs")],
 ["MqttPacket::encode"])
p("C03","Encoder writes every field in the MQTT wire format",
 "Whenever encoding succeeds, an independent conforming MQTT reader of that version recovers from the bytes exactly the field values of the packet: flags, identifiers, strings, reason codes, subscription options, payload and properties, each in the position, order and representation the MQTT specification assigns.",
 ["inputs","configurations"],"every packet value accepted by the encoder at versions 3, 4, 5",
 "A round trip through this library cannot see an error made symmetrically in encoder and decoder, and the tests fix the bytes of only a few packets.",
 PK+["src/mqtt_writer.rs"],
 [("field order in Packet::encode","src/*.rs"),("MqttWriter::write_properties","src/mqtt_writer.rs")],
 ["MqttPacket::encode"])
p("C04","Decoder reports exactly what a valid packet says",
 "For every byte string that is a valid MQTT packet at the given protocol version (3, 4 or 5), decoding succeeds and every field of the returned packet equals the value the MQTT wire format assigns to those bytes, including flags, message identifiers, payload bytes, order of topics and codes, and properties (an empty property set counting as none).",
 ["inputs","configurations"],"every valid packet of all fifteen types at versions 3, 4, 5 whose text fields are UTF-8",
 "Tests decode single examples per packet type with short ASCII strings and small numbers; field interactions, boundary sizes and most optional-field combinations are never decoded.",
 PK+["src/byte_reader.rs"],
 [("PacketDecoder::decode_by_type","src/packet.rs"),("Packet::decode","src/*.rs"),("ByteReader::read_*","src/byte_reader.rs")],
 ["PacketDecoder::decode_packet"])
p("C05","Malformed packets are rejected",
 "A complete packet is never decoded successfully if it violates the structural rules of its type and version: reserved type, header flag, connect flag, connack flag or subscribe option bits, QoS 3, unknown protocol name or version, an unassigned reason code, an unknown or misplaced property, invalid UTF-8 text, a length running past its enclosing section, an over-long variable integer, a missing mandatory payload, or bytes left over after the last field.",
 ["inputs","configurations"],"every complete packet that breaks one of the listed rules, at versions 3, 4, 5",
 "About twenty hand-written malformed packets are tested; the rules apply to every field of every type, and a rule dropped for one type or one value goes unnoticed.",
 PK+["src/byte_reader.rs"],
 [("FixedHeader::from_byte",S+"common.rs"),("ConnectFlags::from_byte","src/connect.rs"),("MqttCode::from_byte",S+"codes.rs"),("ByteReader::ensure_limit","src/byte_reader.rs"),("leftover check","src/packet.rs decode_packet")],
 ["PacketDecoder::decode_packet"])
p("C06","Packets that cannot be represented are refused, not corrupted",
 "Encoding never panics, and returns an error instead of bytes whenever the packet has no valid representation at that version: text or binary longer than 65535 bytes, QoS above 2, a subscription identifier or packet beyond the variable-integer maximum, a missing message identifier, return code, topic, will topic, subscription, topic or acknowledgement list, invalid retain handling, reason codes of the wrong acknowledgement family, a wrong protocol version, or AUTH below version 5. It accepts every packet that does have a valid representation.",
 ["inputs","configurations"],"every packet value constructible through the public types, valid or not, versions 3, 4, 5",
 "Three encode errors are tested; nothing tests over-long fields, size limits or inconsistent combinations, and nothing tests that valid ones are still accepted.",
 PK+["src/mqtt_writer.rs"],
 [("validation in Packet::encode","src/*.rs"),("MqttWriter::write_utf8_str / write_binary / write_variable_num","src/mqtt_writer.rs")],
 ["MqttPacket::encode"])
p("C07","Each decode call consumes exactly one packet",
 "On a stream of back-to-back packets, each decode call, whether it succeeds or fails, consumes exactly the bytes of the next packet as announced by its header: never fewer and never any byte of the packet after it. The decoder reports more input exactly while unconsumed bytes remain.",
 ["histories","inputs"],"every sequence of complete packets (valid or malformed, any declared length) on one decoder, any protocol version per call",
 "One test decodes a fixed stream in which errors occur only in the header; failures inside bodies and property blocks, and leftover bytes after success, are never followed by another packet.",
 ["src/packet.rs","src/byte_reader.rs"],
 [("decode_packet discards the rest of a failed packet","src/packet.rs"),("read limits","src/byte_reader.rs take/limit/reset_limit/consume")],
 ["PacketDecoder::decode_packet","PacketDecoder::has_more","bytes drawn from the io::Read"],
 [("curr_limit","bytes left in the innermost section","src/byte_reader.rs"),("read_limits","bytes left in enclosing sections","src/byte_reader.rs")])
p("C08","A packet decodes the same whatever surrounds it",
 "The outcome of decoding a packet (success or failure, and the value) depends only on that packet's own bytes and the protocol version passed: it is the same whether the packet is alone, preceded by any other packets - including ones that failed to decode - or followed by any bytes.",
 ["histories","inputs"],"every sequence of complete packets before and any bytes after the packet, on one decoder",
 "State (read limits) survives from call to call and data behind the packet is already in the buffer; the tests practically always decode one packet per decoder with nothing after it.",
 ["src/packet.rs","src/byte_reader.rs"]+["src/suback.rs","src/subscribe.rs","src/unsubscribe.rs","src/unsuback.rs"],
 [("limits reset between packets","src/packet.rs decode_packet"),("nested property limits","src/byte_reader.rs read_properties")],
 ["PacketDecoder::decode_packet"])
p("C09","Truncated or failing streams never yield a packet",
 "If the stream ends, or the reader returns an I/O error, before all bytes announced by the packet header have arrived, decoding that packet returns an error: never a packet built from the part that was received, and never a panic.",
 ["inputs","fault_sequences","crash_points"],"every packet cut or failed after every one of its bytes, versions 3, 4, 5",
 "No test truncates a packet or makes the reader fail.",
 ["src/packet.rs","src/byte_reader.rs","src/suback.rs","src/subscribe.rs","src/unsubscribe.rs","src/unsuback.rs"],
 [("read_exact errors are propagated","src/byte_reader.rs read_len"),("leftover check after success","src/packet.rs decode_packet")],
 ["PacketDecoder::decode_packet"])
p("C10","Decoding is total: no panic, always terminates, always advances",
 "For every byte stream and protocol version, decode calls never panic, overflow or hang, and every call made while input remains consumes at least one byte, so a loop that decodes while more input is reported always ends after at most as many calls as there are bytes.",
 ["inputs","histories"],"every finite byte stream, valid or arbitrary garbage, with any sequence of protocol versions",
 "Decoding untrusted network input is the library's job, and its own to-do list asks for fuzzing against panics; tests feed only tidy inputs.",
 ["src/packet.rs","src/byte_reader.rs"]+PK[:10],
 [("Result-returning reads","src/byte_reader.rs"),("decode loop","src/packet.rs")],
 ["PacketDecoder::decode_packet","PacketDecoder::has_more"])
p("C11","How the stream is delivered does not matter",
 "Decoding a byte stream gives the same sequence of results however the underlying reader delivers it: in chunks of any sizes, with interrupted reads (which are retried), with any buffer size, and whether the decoder is built from a stream, a buffered reader or a byte reader.",
 ["schedules","fault_sequences","inputs"],"every partition of the stream into reads and every placement of interrupted reads, any buffer capacity",
 "Every test reads from one in-memory cursor that delivers everything at once.",
 ["src/byte_reader.rs","src/packet.rs"],
 [("read_exact / fill_buf on BufReader","src/byte_reader.rs read_len, has_more")],
 ["PacketDecoder::from_stream","PacketDecoder::from_bufreader","PacketDecoder::new"])
p("C12","Nested read limits bound every read and unwind exactly",
 "For every sequence of operations on the byte reader: no read goes past the innermost active limit, an inner limit never extends an outer one, bytes read inside an inner limit count against all outer ones, a read refused because of a limit takes nothing, removing a limit restores exactly what is left of the enclosing one, consuming takes exactly the bytes left in the innermost limit, and 'has more' tells whether a byte can be read within it.",
 ["histories","inputs"],"every sequence of take, reset, read, consume and has-more calls with any sizes over any data",
 "Three tests use fixed two-level sequences with inner limits strictly smaller than outer ones.",
 ["src/byte_reader.rs"],
 [("take / limit / ensure_limit / reset_limit / consume","src/byte_reader.rs")],
 ["ByteReader public methods"],
 [("curr_limit","bytes left in the innermost section","src/byte_reader.rs"),("read_limits","remainders of enclosing sections","src/byte_reader.rs")])
p("C13","Integers, strings and binary fields use the MQTT primitive encodings",
 "Variable byte integers are written minimally and read back exactly for 0..268435455, larger values are refused and encodings of more than four bytes are rejected; two- and four-byte integers are big-endian; strings and binary data carry a two-byte big-endian length and come back byte for byte, with non-UTF-8 strings rejected. A primitive read consumes exactly its encoding.",
 ["inputs"],"every value of each primitive type and every byte sequence presented to a primitive read",
 "Five variable integers, two fixed-width integers and one string are tested, only in the reading direction.",
 ["src/mqtt_writer.rs","src/byte_reader.rs"],
 [("encode_variable_num / write_variable_num / write_u16 / write_u32 / write_utf8_str / write_binary","src/mqtt_writer.rs"),("read_variable_int / read_u16 / read_u32 / read_utf8_string / read_binary","src/byte_reader.rs")],
 ["MqttWriter public methods","ByteReader public methods"])
p("C14","Reason codes and enumerations map one-to-one to their MQTT bytes",
 "For every enumeration with a wire value (the six reason-code families, QoS, granted QoS, packet types, protocol names), each member is encoded as and decoded from exactly the byte (or name) the MQTT specification assigns to it for that packet type, and every other byte or name is rejected. The flags byte of CONNECT is taken apart bit by bit, and combinations MQTT forbids are rejected.",
 ["inputs"],"every member of every enumeration and every possible byte value",
 "Each family has two hand-written tables; tests touch fewer than a quarter of the entries.",
 [S+"codes.rs",S+"common.rs"],
 [("MqttCode::from_byte / to_byte",S+"codes.rs"),("QoS, Granted, PacketType, Protocol conversions",S+"common.rs")],
 ["from_byte","to_byte","PacketType::from_bits","Protocol::from_source"])
p("C15","Each packet type carries exactly the properties MQTT 5 allows it",
 "At version 5 every property identifier MQTT 5 allows in a packet type (and in the will) is accepted there, read with its specified data type into the field of that name and nowhere else, and every other identifier is rejected; encoding writes each set property under its own identifier and data type and never writes one that is not allowed there.",
 ["inputs","configurations"],"every property identifier 0..255 in every property section of every packet type, any value, order and combination",
 "Property tables are hand-written twice per packet type; tests contain one all-properties example for some types and no misplaced property at all.",
 [S+"properties.rs","src/byte_reader.rs","src/mqtt_writer.rs"],
 [("to_pairs / from_properties",S+"properties.rs"),("decode_property","src/byte_reader.rs"),("write_properties","src/mqtt_writer.rs")],
 ["PacketDecoder::decode_packet","MqttPacket::encode"])
p("C16","Protocol versions do not leak into each other",
 "At versions 3 and 4 the encoder writes, and the decoder reads and reports, no property section, version-5 reason code or version-5 subscription option, so the bytes do not depend on version-5-only fields; at version 5 they are always used. CONNECT is governed only by the version inside the packet itself, whatever version is passed.",
 ["inputs","configurations"],"every packet value and byte string with every protocol version argument and embedded version",
 "Most packets are tested at one version only; version-5 fields are never combined with lower versions.",
 PK,
 [("protocol_version checks","src/*.rs"),("Properties::encode_option",S+"properties.rs")],
 ["MqttPacket::encode","PacketDecoder::decode_packet"])
p("C17","Omitted optional parts decode to their protocol defaults",
 "Where version 5 lets the sender omit a trailing reason code or property section (PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT, AUTH, CONNACK properties), every permitted short form decodes successfully with reason Success/Normal and no properties; and any property absent from a present section decodes to the MQTT 5 default (receive maximum 65535, QoS 2, features available, problem information on, all others zero, off or absent).",
 ["inputs","configurations"],"every permitted short form of every packet type and every subset of properties",
 "Tests cover the short form of the acknowledgements only and property sections that are either absent or full.",
 ["src/confirmation.rs","src/disconnect.rs","src/auth.rs","src/connack.rs",S+"properties.rs"],
 [("remaining-length checks","src/confirmation.rs, src/disconnect.rs, src/auth.rs, src/connack.rs"),("Default impls",S+"properties.rs")],
 ["PacketDecoder::decode_packet"])
p("C18","User properties keep every pair and the order per key",
 "In every packet that can carry them (and in the will), all user property pairs survive encoding and decoding: none lost, added or merged, repeated keys and identical repeated pairs kept, empty keys and values allowed, and the values of one key in their original order.",
 ["inputs"],"every multiset of user property pairs, in every packet type and the will, with any other properties between them",
 "Tests use one key 'test' with one to three identical values, so order, interleaving and multiple keys are never seen.",
 ["src/byte_reader.rs","src/mqtt_writer.rs",S+"properties.rs"],
 [("read_properties groups pairs per key","src/byte_reader.rs"),("write_properties expands Map/MapRef","src/mqtt_writer.rs")],
 ["PacketDecoder::decode_packet","MqttPacket::encode"])
p("C19","Acknowledgement type and reason code family always agree",
 "A decoded PUBACK, PUBREC, PUBREL or PUBCOMP names its own type, and at version 5 holds exactly one reason code, from the family of that type (none below version 5); encoding one writes the type it names with the fixed flag bits, succeeds at version 5 only with exactly one reason code of the matching family, and refuses other packet types. The convenience constructors build packets that encode and decode unchanged.",
 ["inputs","configurations"],"every combination of acknowledgement type, reason codes, properties, message id and version",
 "The four packets share one struct, so inconsistent combinations type-check; tests never try them, and encode only Success.",
 ["src/confirmation.rs","src/packet.rs",S+"codes.rs"],
 [("code/cmd matching in ConfirmationPacket::encode and decode","src/confirmation.rs"),("constructors","src/confirmation.rs")],
 ["ConfirmationPacket::encode","PacketDecoder::decode_packet","ConfirmationPacket constructors"])
p("C20","Serde serialisation preserves packets",
 "With serde support enabled, serialising any packet of any type, or a part of its interface (packet structures, reason codes, packet types, fixed headers, connect flags), and deserialising it gives back an equal value: with JSON, whatever the route (text in any layout and order of members, a reader, a tree of values, within a list), and with a format that writes bare values in order.",
 ["inputs","configurations"],"every packet value, with the serde feature on",
 "No test enables the feature; the build only type-checks it.",
 PK[:0]+[S+"mod.rs",S+"properties.rs",S+"codes.rs",S+"common.rs","src/packet.rs"],
 [("derive(Serialize, Deserialize)","src/packet.rs, "+S)],
 ["serde_json::to_string / from_str, to_value / from_value, from_reader on MqttPacket","bincode::serialize / deserialize on MqttPacket"])
p("C21","Relaying an accepted packet never alters it",
 "For every byte string that decodes successfully at a version, re-encoding the result at that version either reports an error or produces bytes that decode to an equal packet (an empty property set counting as none): decoding and re-encoding any number of times never changes, drops or adds information.",
 ["inputs","histories"],"every accepted packet, including odd but accepted encodings, at versions 3, 4, 5, relayed any number of times",
 "Tests never re-encode what was decoded except for the very packets they were written from.",
 PK+["src/byte_reader.rs","src/mqtt_writer.rs"],
 [("Packet::decode then Packet::encode","src/*.rs")],
 ["PacketDecoder::decode_packet","MqttPacket::encode"])
p("C22","A packet is returned as soon as its last byte has arrived",
 "A decode call asks the underlying reader for more only while bytes of the packet it is decoding are missing: once the last byte announced by the header has been delivered, the call returns without another read, whether it succeeds or fails. Asking whether there is more input reads only when every byte delivered so far has been consumed. So on a live connection where the peer waits for an answer, no packet is held back.",
 ["inputs","schedules"],"every packet sequence, every split of the bytes over reads, every buffer size and way to build the decoder",
 "Tests decode from in-memory cursors, where an additional read returns at once and goes unnoticed; on a socket it blocks.",
 ["src/packet.rs","src/byte_reader.rs"],
 [("has_more answers from the limit or the buffer","src/byte_reader.rs"),("decode_packet, finish_packet","src/packet.rs")],
 ["PacketDecoder::decode_packet","PacketDecoder::has_more"])
p("C23","Decoding reserves memory for what arrived, not for what is announced",
 "The memory in use during a decode call is bounded by a constant plus a multiple of the bytes of the packet that have actually been received, whatever lengths the bytes announce (up to 256 MiB in the header, 64 KiB per field), and a decoder holds on to no memory that grows with the number of packets it has decoded.",
 ["inputs","histories"],"every byte stream including headers and fields that announce more than follows, and streams of any number of packets",
 "Tests never look at memory, and never announce more than they send by more than a few bytes.",
 ["src/byte_reader.rs","src/packet.rs","src/publish.rs","src/subscribe.rs","src/connect.rs"],
 [("read_len","src/byte_reader.rs"),("read_limits","src/byte_reader.rs"),("finish_packet","src/byte_reader.rs")],
 ["PacketDecoder::decode_packet","ByteReader::read_len"])
p("C24","Encoders and decoders do not influence each other",
 "The outcome of every encode and decode call depends only on its own arguments and, for decoding, on its own decoder's stream: it is the same whether the call is made alone or after, between or during any calls on other packets and other decoders - successful or failed, in the same thread, in another thread, or from inside the reader a decoder is waiting for. Encoding equal packets gives equal bytes, up to the order of user property keys.",
 ["schedules","histories"],"every set of decoders and encoders, every interleaving of their calls and reads, in one thread or several",
 "Tests use one decoder or one packet at a time, in calls that never overlap and mostly succeed.",
 ["src/packet.rs","src/byte_reader.rs","src/mqtt_writer.rs"]+PK[:0],
 [("PacketDecoder and ByteReader own all their state","src/packet.rs, src/byte_reader.rs"),("MqttWriter::new per packet","src/mqtt_writer.rs")],
 ["MqttPacket::encode","PacketDecoder::decode_packet"])
p("C25","Both levels of the interface say the same",
 "The packet types' own functions agree with MqttPacket and PacketDecoder. Packet::encode on a packet succeeds, fails and writes exactly as MqttPacket::encode does on the same packet (up to the order of user property keys), leaves the packet unchanged and gives the same when called again. Reading a packet by hand - read_header on the decoder's reader, the packet type's decode with that header, length and version, consume for what is left, reset_limit - gives the packet decode_packet gives, with nothing left over, exactly when decode_packet accepts it, and afterwards the reader stands, without limits, at the next packet; packets taken by hand and by decode_packet may alternate on one stream.",
 ["inputs","histories"],"every packet and version, every byte stream, every sequence of packets taken by hand and by decode_packet",
 "Tests encode through one level and decode through the other, a packet at a time; what one level tidies up for the other shows only when they are mixed.",
 ["src/packet.rs","src/byte_reader.rs"]+PK,
 [("MqttPacket::encode, decode_by_type","src/packet.rs"),("trait Packet","src/structure/mod.rs"),("read_header, consume, reset_limit","src/byte_reader.rs")],
 ["Packet::encode","Packet::decode","ByteReader::read_header","ByteReader::consume","ByteReader::reset_limit","MqttPacket::encode","PacketDecoder::decode_packet"])
p("C26","Comparing and copying packets is exact",
 "Two packets compare equal exactly when they are of the same type and every public field, property and user property (names, values, and the order of the values of one name) says the same; == gives the same answer in both directions, != always the opposite one, and neither panics. A clone says the same as the packet it was taken from in every field, compares equal to it, and taking it changes nothing. This holds for MqttPacket and for each packet structure on its own, however the packets were made: put together, decoded or copied.",
 ["inputs"],"every pair of packets, in particular pairs which differ in one field, one property, one byte or one order only",
 "The tests use == as their oracle and compare packets which agree; an equality that overlooks a field makes every one of them pass more easily.",
 PK,
 [("derived PartialEq and Clone of the packet types","src/structure/properties.rs"),("MqttPacket","src/packet.rs"),("Packet structures","src/publish.rs")],
 ["MqttPacket::eq","MqttPacket::clone","PublishPacket::eq","ConnectPacket::eq","ConfirmationPacket::eq"])
p("C27","The work of a call grows in proportion to the packet",
 "The work of an encode or decode call - processor time, memory reserved in total, and the number of reservations - grows at most in proportion to the size of the packet: to the number of its user properties (with one name or many, in the packet or the will), subscriptions, topics, reason codes and payload bytes, whether the packet is accepted or refused (and then skipped), and however its bytes are delivered. The work for a stream is at most proportional to the number of its packets: a packet costs the same wherever it stands.",
 ["inputs","histories"],"packets with any number of parts, accepted or refused, streams of any number of packets, any delivery",
 "Tests use packets of a handful of parts, for which work that grows with the square of their number goes unnoticed; a peer can send hundreds of thousands of them in one packet.",
 ["src/byte_reader.rs","src/mqtt_writer.rs","src/structure/properties.rs"]+PK[:0]+["src/subscribe.rs","src/unsubscribe.rs","src/suback.rs","src/unsuback.rs","src/publish.rs"],
 [("read_properties, read_len, finish_packet","src/byte_reader.rs"),("write_properties, write_sized","src/mqtt_writer.rs"),("decode of lists","src/subscribe.rs, src/unsubscribe.rs, src/suback.rs, src/unsuback.rs")],
 ["MqttPacket::encode","PacketDecoder::decode_packet"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
