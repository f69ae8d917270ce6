import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":mech,"observe_at":observe or [],"hook_needed":None}})
def m(name,where): return {"name":name,"where":where}
PK="mqtt/packets/"
PR="mqtt/packets/primitives/"
CL="mqtt/client.go"
NOENC="The only existing test is a table of 19 topic/filter pairs; no test encodes or decodes any packet, and the space (optional fields x sizes x length-field widths) is combinatorial."
NOCL="The only existing test is a table of 19 topic/filter pairs on an unconnected client; no test ever drives a connection, and the guarantee is over every packet history, interleaving or fault."

p("C01","CONNECT packets are encoded faithfully",
 "Encoding a CONNECT packet emits exactly one well-formed MQTT 5 CONNECT packet: the remaining length, the property length and the will-property length equal the bytes that follow, whatever their size. An independent decoder recovers every field the application set (protocol version, clean start, keep alive, client id, user name, password, every connect property under its MQTT 5 identifier, and, when a will payload is set, the will topic, payload, QoS, retain flag and every will property) and nothing that was not set.",
 ["inputs"],"every combination of set/unset CONNECT fields and every value size, including property sections of 128 bytes and more", NOENC,
 [PK+"connect.go"],[m("Connect.WriteTo length computation and field emission",PK+"connect.go")])
p("C02","PUBLISH packets are encoded faithfully and round-trip",
 "Encoding a PUBLISH packet emits exactly one well-formed MQTT 5 PUBLISH packet whose lengths match the bytes emitted; an independent decoder recovers topic, QoS, retain and duplicate flags, packet identifier (present iff QoS > 0), every property that was set, and the payload byte for byte. Decoding it again with the library itself yields the same packet, both when the fixed header was read beforehand and when the decoder reads it itself. A PUBLISH with neither topic nor topic alias is refused with an error and nothing is written.",
 ["inputs"],"every combination of flags, QoS 0-2, topic, properties and payload sizes (crossing every 1/2/3-byte length boundary)", NOENC,
 [PK+"publish.go"],[m("Publish.WriteTo / Publish.ReadFrom",PK+"publish.go")])
p("C03","SUBSCRIBE and UNSUBSCRIBE are encoded faithfully",
 "Encoding a SUBSCRIBE or UNSUBSCRIBE packet emits exactly one well-formed packet with the mandatory reserved header bits, from which an independent decoder recovers the packet identifier, the properties and the topic filters in order, and for SUBSCRIBE each filter's options. The options of a topic are exactly those last set by the application (QoS, no-local, retain-as-published, retain handling) in whatever order the setters were called, except that no-local is never set on a shared subscription ($share/...). A packet without any topic is refused with an error and nothing is written; no setter ever panics.",
 ["inputs","histories"],"every sequence of topic option setter calls with any filter length, any list of topics and any properties", NOENC,
 [PK+"subscribe.go",PK+"unsubscribe.go",PK+"topic.go"],[m("Topic setters keep bits 0-5 independent; share check",PK+"topic.go"),m("Subscribe.WriteTo/Unsubscribe.WriteTo",PK+"subscribe.go")])
p("C04","Acknowledgement, DISCONNECT and AUTH packets are encoded faithfully",
 "Encoding a PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT or AUTH packet emits exactly one well-formed MQTT 5 packet of that type with the mandatory reserved header bits and exact lengths. An independent decoder recovers packet identifier, reason code and every property that was set.",
 ["inputs"],"every reason code, identifier and combination of properties of any size for the six packet types", NOENC,
 [PK+"puback.go",PK+"disconnect.go",PK+"auth.go"],[m("Puback/Pubrec/Pubrel/Pubcomp.WriteTo",PK+"puback.go"),m("Disconnect.WriteTo",PK+"disconnect.go"),m("Auth.WriteTo",PK+"auth.go")])
p("C05","Every well-formed inbound packet decodes to its exact contents",
 "For every well-formed MQTT 5 packet a server may send (CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH, in short and long forms, with any legal properties in any order), decoding succeeds, yields exactly the values sent, and consumes exactly the bytes of that packet, reporting that count. (Where the packet types cannot represent a repetition - equal user property names, several subscription identifiers - the last one sent is reported.)",
 ["inputs"],"every well-formed server-to-client packet: type, short/long form, property subset and order, value sizes", NOENC,
 [PK+"connack.go",PK+"publish.go",PK+"puback.go",PK+"suback.go",PK+"unsuback.go",PK+"disconnect.go",PK+"auth.go"],
 [m("ReadFrom of each packet type: property loop driven by the property length and the fixed header's remaining length",PK)])
p("C06","Decoding does not depend on how the network fragments the stream",
 "Decoding a stream of packets gives the same packets whatever way the transport splits it into reads: one byte at a time, arbitrary chunks, or everything at once. No field is truncated, zero-filled or shifted because a read returned fewer bytes than asked for.",
 ["inputs","fault_sequences"],"every stream of well-formed packets and every partition of it into read chunks", NOENC+" Short reads never happen in a test that decodes from a byte slice.",
 [PR+"string.go",PR+"byte.go",PR+"io.go",PR+"varint.go",PK+"publish.go",CL],[m("full reads of strings, bytes, integers and payload",PR)])
p("C07","Malformed or truncated packets are rejected cleanly",
 "Whatever bytes a server sends, decoding them either yields a packet or returns an error: it never panics, never loops without consuming input, and never takes bytes beyond the packet's declared end. A packet that is truncated, whose properties overrun the declared lengths, that contains an unknown property identifier, a PUBLISH with QoS 3, or a SUBACK or UNSUBACK without reason codes is reported as an error, never as a successfully received packet.",
 ["inputs"],"every byte string presented as a packet body for every inbound packet type, at packet level and through a connected client", NOENC,
 [PK+"connack.go",PK+"publish.go",PK+"puback.go",PK+"suback.go",PK+"unsuback.go",PK+"disconnect.go",PK+"auth.go",CL],[m("length bookkeeping of the property loops; bounding of body reads by the remaining length",PK)])
p("C08","Primitive encodings are canonical, bounded and reversible",
 "Bytes, 16/32-bit integers, variable byte integers and strings encode to exactly the MQTT representation of their value, decode back to the same value, and the announced length equals the number of bytes written and the counts reported, both plain and as a property. Variable byte integers use the minimal form; values above 268435455, strings above 65535 bytes and variable byte integers longer than four bytes are refused with an error instead of being silently truncated or misread.",
 ["inputs"],"every primitive value, boundary and oversized value, and every byte string offered to the decoders", NOENC,
 [PR+"byte.go",PR+"uint16.go",PR+"uint32.go",PR+"varint.go",PR+"string.go"],[m("Length/WriteTo/WriteToAsProperty/ReadFrom of each primitive",PR)])
p("C09","I/O faults surface as errors in every encoder and decoder",
 "If the writer fails at any byte while a packet is encoded, or the stream ends or fails at any byte while a packet is decoded, the operation returns an error and never reports success or panics; a transport error is reported as that error. When encoding succeeds, the reported count equals the number of bytes handed to the writer.",
 ["fault_sequences","inputs"],"every packet of every type x every byte position at which the reader or writer fails", NOENC+" No test injects an I/O failure.",
 [PK,PR],[m("error checks after every read and write",PK)])
p("C10","Messages are routed by the MQTT topic-filter rules",
 "A received message is delivered to the event channel bound to a subscription exactly when its topic matches the subscription's filter under the MQTT 5 rules: levels compare exactly, '+' matches exactly one level (also an empty one), a trailing '#' matches the parent level and everything below, wildcards only count when they occupy a whole level, and a filter starting with a wildcard does not match topics starting with '$'. No topic a server sends can crash the client. (Shared-subscription filters are documented as unsupported and are outside this property.)",
 ["inputs"],"every (topic, filter) pair, including empty levels, leading/trailing slashes, multi-byte characters and invalid filters", "The existing table has 19 pairs of short topics; the relation is over all pairs and the crashing and misrouted ones are outside the table.",
 [CL],[m("matchTopic",CL),m("routing of PUBLISH in Poll",CL)])
p("C11","Every inbound QoS message is answered correctly",
 "For every sequence of inbound PUBLISH and PUBREL packets, the client answers each QoS 1 PUBLISH with exactly one PUBACK, each QoS 2 PUBLISH with exactly one PUBREC and each PUBREL with exactly one PUBCOMP, carrying the same packet identifier, in order of arrival, and sends nothing in response to QoS 0 messages or other packets that need no answer. This holds with or without a storage configured and whatever identifiers are used.",
 ["histories"],"every inbound packet sequence with identifiers colliding among inbound and outbound messages, with and without storage", NOCL,
 [CL],[m("Poll PUBLISH/PUBREL cases, sendPuback, sendPubrec",CL)])
p("C12","QoS 2 messages are delivered to the application exactly once",
 "Within a connection, a QoS 2 message retransmitted by the server any number of times before it is released (PUBREL) is delivered to the application's event channels exactly once, while every retransmission is still acknowledged. After release the same packet identifier denotes a new message and is delivered again.",
 ["histories"],"every interleaving of QoS 2 publishes, retransmissions and releases over any identifiers, mixed with other traffic", NOCL,
 [CL],[m("tracking of unreleased QoS 2 identifiers in Poll",CL)])
p("C13","Outbound QoS handshakes follow the protocol",
 "A published message is put on the wire exactly once, unchanged; every successful PUBREC from the server is answered with exactly one PUBREL for the same identifier and nothing else is sent by the client on its own, while a PUBREC carrying a failure code (0x80 or above) ends the exchange without a PUBREL. Each acknowledgement received is reported as an event carrying its contents.",
 ["histories"],"every sequence of publishes (QoS 0-2) and acknowledgements with any reason codes, properties and orders", NOCL,
 [CL],[m("Publish; Poll PUBACK/PUBREC/PUBCOMP cases",CL)])
p("C14","The client never exceeds the server's Receive Maximum",
 "At no time are more QoS 1 and QoS 2 messages in flight (sent, and neither acknowledged by PUBACK or PUBCOMP nor refused by a failing PUBREC) than the Receive Maximum the server announced for the connection, 65535 if it announced none, however many goroutines publish concurrently and however acknowledgements interleave with the publish calls. QoS 0 messages are never held back by this limit, and messages of any QoS can always be published while the limit is not reached.",
 ["schedules","histories"],"every interleaving of concurrent publishers and the polling goroutine, every acknowledgement order, every Receive Maximum", NOCL,
 [CL],[m("send quota counter",CL),m("wait for quota in Publish",CL)],[{"name":"send quota","meaning":"QoS>0 publishes that may still be sent","where":CL}])
p("C15","A publish waiting for quota always resumes, times out or is released",
 "A publish blocked because the server's Receive Maximum is reached is sent as soon as an acknowledgement frees a slot, for every number of blocked publishers and every interleaving with the polling goroutine: no free slot is ever lost and no wake-up is missed. It returns an error once its context expires or the client is disconnected, and then its message is not sent.",
 ["schedules","histories"],"every interleaving of blocked publishers, acknowledgements (PUBACK, PUBCOMP, failing PUBREC), context expiry and disconnection", NOCL,
 [CL],[m("quota release and wake-up in Poll; wait in Publish",CL)])
p("C16","The client enforces its own Receive Maximum and only that",
 "The client disconnects with reason 0x93 exactly when the server sends a QoS 1 or QoS 2 message while the number of unreleased QoS 2 messages already equals the Receive Maximum the client announced (65535 if none was announced); the offending message is not acknowledged or delivered, the network connection is closed and nothing more is written. QoS 0 messages, acknowledged QoS 1 messages, retransmissions and released QoS 2 messages never consume the allowance, over any number of messages.",
 ["histories","configurations"],"every sequence of inbound messages of all QoS levels, releases and retransmissions, for every pair of announced Receive Maximums", NOCL,
 [CL],[m("receive quota counter in Poll/sendPuback",CL),m("disconnectWithReason",CL)],[{"name":"receive quota","meaning":"QoS 2 messages the server may still send","where":CL}])
p("C17","Events reach every open event channel completely and in order",
 "Every connection acknowledgement, message, acknowledgement, disconnect and authentication packet is signalled once, in arrival order and with its decoded contents, on every open general event channel that has room; a full channel misses just that event and never blocks the client or other channels. A closed event channel receives nothing more, its Done channel fires, and closing it (even after the client already closed it) never panics or affects the other channels.",
 ["histories"],"every sequence of channel creations (any capacity), closings, consumption and inbound packets", NOCL,
 [CL,"mqtt/events.go"],[m("signal fan-out, CreateEventChannel, CloseEventChannel",CL)])
p("C18","Connect reports exactly what the server answered",
 "Connecting, for the first time or again after a disconnection, sends the CONNECT packet and succeeds exactly when the server answers with a well-formed CONNACK carrying a reason code below 0x80; then the client is connected, the keep-alive interval is the server's value if it sent a non-zero one and the application's otherwise, and the CONNACK is signalled with its contents. A refusal returns the server's reason code as the error and closes the connection; any other packet, malformed answer, I/O failure or expired deadline returns an error; in every such case the client is not connected and signals no connection event.",
 ["inputs","fault_sequences","configurations"],"every CONNECT x every server answer (valid, refusing, wrong type, malformed, truncated at any byte, late) and every I/O fault", NOCL,
 [CL],[m("Connect",CL)])
p("C19","The keep-alive timeout fires exactly when it should",
 "With keep-alive interval K > 0, polling keeps working as long as each ping response arrives within 2K of the previous one (or of connecting), and the first poll made later than that returns the keep-alive-timeout reason (0x8D), closes the network connection and marks the client not connected. With keep-alive disabled (0) no keep-alive timeout ever occurs; each keep-alive call sends exactly one PINGREQ.",
 ["schedules","histories"],"every timing of pings, ping responses, other traffic and polls, every keep-alive interval negotiated", NOCL+" Real-time tests of a timeout are slow and cannot explore timings.",
 [CL],[m("ping response deadline in Connect/Poll",CL),m("KeepAlive",CL)])
p("C20","Disconnecting is final and uses the right parameters",
 "Disconnecting a connected client sends one DISCONNECT packet, with reason 0x04 when the will is to be published and 0x00 otherwise, and with the requested session expiry only if the session expiry given when connecting was non-zero; then it closes the network connection, signals the disconnect and leaves the client not connected. On a client that is not connected (never connected, refused, disconnected by either side, or timed out) every operation (disconnect, publish, subscribe, unsubscribe, keep-alive, poll) returns the not-connected error, writes nothing and leaves the client usable without blocking.",
 ["histories","configurations"],"every history of operations before and after a disconnection, by either side, with every parameter combination", NOCL,
 [CL],[m("DisconnectWithSessionExpiry and the connected guards of each operation",CL)],[{"name":"connected state","meaning":"whether operations are allowed","where":CL}])
p("C21","Subscribe and Unsubscribe reflect the server's acknowledgement",
 "Subscribing or unsubscribing sends exactly the requested filters and options under a fresh identifier and completes when, and only when, the acknowledgement with that identifier arrives, or with an error when the context expires or the client is disconnected. A subscription refused by the server returns that reason code; every filter the server granted routes its messages to the event channel given for it, and no other channel binding changes; after unsubscribing, the channel bound to that filter is closed, while a filter the server refuses to unsubscribe stays bound and the reason code is returned. Acknowledgements with other identifiers, duplicates, or an unexpected number of reason codes never crash or block the client.",
 ["histories","schedules"],"every list of topics and channels (shared or distinct), every acknowledgement content, order, duplication and timing, concurrent requests", NOCL,
 [CL],[m("Subscribe/Unsubscribe response channels and topic bindings",CL)])
p("C22","Packet identifiers chosen by the client are valid and unique",
 "Every packet identifier the client chooses for a PUBLISH, SUBSCRIBE or UNSUBSCRIBE is non-zero and differs from every identifier then in use by an unfinished exchange the client started (and from every identifier held by the configured storage), whatever the random source returns, including constant or zero values. An identifier set by the application on a PUBLISH is used unchanged.",
 ["histories","inputs"],"every random-source behaviour and every history of outstanding exchanges", NOCL,
 [CL],[m("identifier allocation in Publish/Subscribe/Unsubscribe",CL)])
p("C23","Storage holds exactly the unfinished exchanges",
 "With a storage configured, after every step it holds exactly one entry per unfinished exchange: the original message from the moment it is published until PUBACK or PUBREC, the PUBREC for an outbound QoS 2 exchange until PUBCOMP (nothing after a failing PUBREC), and for each inbound QoS 2 message a PUBREC until PUBREL. QoS 0 and inbound QoS 1 messages leave no entry, an inbound exchange never displaces or removes the entry of an outbound one with the same identifier, and a message refused before being sent leaves no entry.",
 ["histories","fault_sequences"],"every history of inbound and outbound exchanges with identifier collisions, unknown acknowledgements and failing storage calls", NOCL,
 [CL,"mqtt/storage/storage.go"],[m("storage calls in Publish and Poll",CL)])
p("C24","The in-memory storage is a linearizable ordered map",
 "The in-memory storage behaves as a map from identifier to packet: storing a free identifier succeeds and storing an occupied one fails with the duplicate error without changing the entry; reading and dropping succeed exactly for occupied identifiers, return the very packet stored, and fail with the no-entry error otherwise. This holds for every operation sequence and, under concurrent callers, every history is linearizable.",
 ["histories","schedules"],"every sequence of store/get/drop over all identifiers, and every interleaving of concurrent callers", "No test touches the storage package.",
 ["mqtt/storage/memory/memory.go"],[m("slice of entries guarded by a mutex","mqtt/storage/memory/memory.go")])
p("C25","No operation can wedge the client",
 "For every interleaving of concurrent operations (connect, poll, publish, subscribe, unsubscribe, keep-alive, disconnect, event-channel creation and closing) and every failure of the network or of the storage inside any of them, every operation returns as long as polling continues and the server answers, and afterwards, also on a later connection of the same client, every further operation still returns: no deadlock, no lock left held by a failed operation, no panic.",
 ["schedules","fault_sequences","histories"],"every schedule of the client's goroutines at statement granularity x every position of an I/O or storage failure", NOCL,
 [CL],[m("lock order and unlocking on every return path",CL)],[{"name":"locks","meaning":"connection, state and event locks","where":CL}])
p("C26","Concurrent use of the client is free of data races",
 "An application may call the client's operations (poll on one goroutine; publish, subscribe, unsubscribe, keep-alive, connection-state query, event-channel creation and closing, disconnect on others) concurrently without any unsynchronised access to shared memory inside the library, on every path including failures.",
 ["schedules"],"every concurrent combination of operations with a responsive or failing server, judged by happens-before race detection", NOCL,
 [CL,"mqtt/storage/memory/memory.go"],[m("locks around shared client state",CL)])
p("C27","A poll deadline never loses or corrupts inbound data",
 "When a poll's deadline passes before anything arrived, polling returns without error and without consuming anything; when bytes of a packet arrive slowly (within 30 s of its first byte) or the deadline passes in the middle of a packet, that packet and all following ones are still received exactly as sent, once each and in order, by that or later polls. When the stream ends or fails in any other way, between packets or inside one, the polls that meet it return an error (the transport's own, if it failed) and nothing of an incomplete packet is signalled or answered.",
 ["schedules","fault_sequences"],"every arrival time of every byte of the stream relative to every poll deadline (each packet arriving within 30 s of its first byte)", NOCL+" A deadline falling between two bytes of a packet needs a controlled clock.",
 [CL],[m("deadline handling around the fixed header in Poll",CL)])
p("C28","Subscription routing is never lost or doubled while bindings change",
 "While subscriptions complete, unsubscriptions complete and event channels are created or closed concurrently with polling, every message that arrives after the subscription was acknowledged and before the unsubscription was requested is delivered to the subscription's channel exactly once (if it has room), other open general channels receive every message exactly once, and no message delivery panics or reaches a closed channel.",
 ["schedules"],"every interleaving, at statement granularity, of message arrival with subscribe/unsubscribe/create/close", NOCL,
 [CL],[m("binding of channels in Subscribe, closing in Unsubscribe/CloseEventChannel, routing in Poll",CL)])
p("C29","A message payload behaves as a byte stream",
 "Reading a PUBLISH packet's payload through its reader yields exactly the remaining payload bytes in order and then end-of-file; writing through its writer overwrites the payload from the current offset up to its end, reports the bytes stored and reports end-of-file once it is full; resetting returns to the start. No operation changes the payload's size or other bytes or panics, for any buffer sizes and any order of calls.",
 ["histories","inputs"],"every payload and every sequence of reads, writes and resets with any buffer sizes", NOENC,
 [PK+"publish.go"],[m("Publish.Read/Write/Reset offset",PK+"publish.go")])
p("C30","Reason codes are reported with their MQTT 5 meaning",
 "Every failure reason code of MQTT 5 (0x80-0xA2) that a server can return has its own distinct description, equal in meaning to the name in the specification, success is described as success, and unassigned codes are described as unknown; the code itself is preserved in the error returned by connecting and subscribing so that callers can compare it.",
 ["inputs"],"all 256 reason codes, directly and returned through connect and subscribe", "No test looks at reason codes.",
 ["mqtt/errors.go"],[m("ReasonCode.Error","mqtt/errors.go")])
p("C31","The bytes on the wire are always whole packets",
 "Whatever operations run concurrently and whatever fails, the bytes written to the network connection always form a sequence of complete well-formed packets, each belonging to one operation, possibly followed by one partial packet if a write failed part-way; after such a partial write nothing more is ever written to that connection and the client is no longer connected. An operation that reports success has written its packet completely and exactly once.",
 ["schedules","fault_sequences"],"every interleaving of concurrent writers x every byte position at which a write fails", NOCL,
 [CL],[m("send: encode to a buffer, single write under the connection lock",CL)])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
