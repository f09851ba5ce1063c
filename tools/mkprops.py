#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements are reviewed in one readable place).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

pk = "mqtt/packets/"; pr = "mqtt/packets/primitives/"; cl = "mqtt/client.go"
notest = "The only tests of the repository are 19 topic-matching examples; "

prop("C01", "Primitive values are written in their exact MQTT 5 wire form",
 "Writing a byte, a 16- or 32-bit integer, a string or a variable byte integer produces exactly its MQTT 5 encoding (big-endian integers, two-byte length prefix plus content for strings, minimal base-128 little-endian groups for variable byte integers), preceded by the identifier byte when written as a property. The number of bytes reported by the write, and the length computed beforehand, both equal the number of bytes produced. A value that has no MQTT 5 encoding (a string longer than 65535 bytes, a variable byte integer above 268435455) is rejected with an error and never written truncated or over-long.",
 ["inputs"], "every value of each primitive type, every identifier byte, every string content and length",
 notest + "no primitive is ever encoded by a test, and 2^32 integers and unbounded strings cannot be sampled.",
 [pr+f for f in ("byte.go","uint16.go","uint32.go","string.go","varint.go","io.go")],
 [("WriteTo / WriteToAsProperty / Length of each primitive", pr)], observe=["bytes given to the io.Writer, returned count and error"])

prop("C02", "Primitive reads invert writes, for any fragmentation of the stream",
 "Reading a byte, integer, string or variable byte integer from a stream that starts with its MQTT 5 encoding yields exactly the encoded value, consumes exactly the bytes of that encoding and reports that count, no matter how the transport splits the stream into chunks. A stream that ends before the encoding is complete gives an error, and so does a variable byte integer that does not end within four bytes.",
 ["inputs", "schedules"], "every byte stream and every way the reader can return it in pieces",
 notest + "no decoder is exercised, and fragmentation is chosen by the network, not by a test.",
 [pr+f for f in ("byte.go","uint16.go","uint32.go","string.go","varint.go","io.go")],
 [("ReadFrom of each primitive", pr)], observe=["decoded value, count, error, reader position"])

prop("C03", "Fixed header keeps packet type, flags and remaining length intact",
 "Setting the packet type of a fixed header changes only the upper four bits of its first byte and setting the flags changes only the lower four; reading them back returns what was set. A header is written as that byte followed by the remaining length as a variable byte integer, and reading a written header restores both and consumes exactly those bytes.",
 ["inputs"], "all type, flag and remaining-length values, all byte streams",
 notest + "headers are never built or parsed by a test.",
 [pk+"packet.go"], [("FixedHeader methods", pk+"packet.go")])

prop("C04", "CONNECT is encoded as one well-formed packet carrying every set field",
 "For every connect request whose encoding fits the MQTT 5 size limits, the bytes written are exactly one CONNECT packet: the remaining length and each property-section length equal the number of bytes they announce. Client identifier, credentials, keep alive, clean-start flag, will (topic, payload, QoS, retain and properties) and every set property appear exactly once, in the place and under the identifier MQTT 5 assigns to them, with the value set, and nothing unset appears. The reported count equals the bytes written.",
 ["inputs", "configurations"], "every combination of set and unset fields, every field value and length, every user-property map and iteration order",
 notest + "no CONNECT is ever encoded, and there are 2^20 combinations of optional fields, each with unbounded lengths.",
 [pk+"connect.go"], [("(*Connect).WriteTo", pk+"connect.go")], observe=["bytes written, count"])

prop("C05", "PUBLISH is encoded as one well-formed packet carrying every set field",
 "For every outgoing publish with QoS 0, 1 or 2 whose encoding fits the MQTT 5 size limits, the bytes written are exactly one PUBLISH packet: flags reflect retain, QoS and duplicate, the packet identifier is present exactly when QoS is above 0, set properties appear once under their MQTT 5 identifiers, lengths announced equal bytes present, and the payload is the trailing bytes unchanged. A publish with neither topic nor topic alias is rejected with an error and nothing is written. The reported count equals the bytes written.",
 ["inputs", "configurations"], "every combination of fields, payload and property values",
 notest + "no PUBLISH is ever encoded.",
 [pk+"publish.go"], [("(*Publish).WriteTo", pk+"publish.go")])

prop("C06", "SUBSCRIBE and UNSUBSCRIBE carry every topic filter in order",
 "For every non-empty list of topics whose encoding fits the MQTT 5 size limits, the bytes written are exactly one SUBSCRIBE (or UNSUBSCRIBE) packet with the reserved flags 0010, the given packet identifier, the set properties and then every filter in list order (for SUBSCRIBE each followed by its options byte), and all announced lengths and the reported count are exact. An empty topic list is rejected with an error and nothing is written.",
 ["inputs"], "every list length, filter content and options byte, every user-property map",
 notest + "no SUBSCRIBE or UNSUBSCRIBE is ever encoded.",
 [pk+"subscribe.go", pk+"unsubscribe.go"], [("(*Subscribe).WriteTo", pk+"subscribe.go"), ("(*Unsubscribe).WriteTo", pk+"unsubscribe.go")])

prop("C07", "PUBACK, PUBREC, PUBREL and PUBCOMP are encoded as well-formed packets",
 "Writing a publish acknowledgement of any of the four kinds whose encoding fits the MQTT 5 size limits produces exactly one packet of that kind with its required flags (0010 for PUBREL, 0000 otherwise when freshly created), the packet identifier, the reason code, and the reason string and user properties when set, with exact announced lengths and an exact reported count. The reason code of the acknowledgement as a receiver parses it equals the one set.",
 ["inputs"], "every identifier, reason code, reason string and user-property map",
 notest + "no acknowledgement is ever encoded.",
 [pk+"puback.go"], [("(*Puback).WriteTo and the three wrappers", pk+"puback.go")])

prop("C08", "DISCONNECT and AUTH are encoded as well-formed packets",
 "For every DISCONNECT or AUTH whose encoding fits the MQTT 5 size limits, the bytes written are exactly one packet of that kind containing the reason code and every set property exactly once under its MQTT 5 identifier, with exact remaining and property lengths and an exact reported count.",
 ["inputs", "configurations"], "every combination of set and unset fields and every field value",
 notest + "neither packet is ever encoded.",
 [pk+"disconnect.go", pk+"auth.go"], [("(*Disconnect).WriteTo", pk+"disconnect.go"), ("(*Auth).WriteTo", pk+"auth.go")])

dec = "A body that ends early, overruns its announced remaining or property length, or contains an identifier that is not a property of that packet is rejected with an error; on success exactly the announced number of bytes has been consumed and that number is reported."
prop("C09", "CONNACK decoding returns exactly what the server sent or an error",
 "Decoding a well-formed CONNACK body yields the session-present flag, the reason code and every property with exactly the values encoded, leaving properties that are not present unset. " + dec,
 ["inputs"], "every byte stream and remaining length",
 notest + "no packet is ever decoded.",
 [pk+"connack.go"], [("(*Connack).ReadFrom", pk+"connack.go")])
prop("C10", "PUBLISH decoding returns exactly what the server sent or an error",
 "Decoding a well-formed PUBLISH yields its retain, QoS and duplicate flags, topic, packet identifier (only for QoS above 0), properties and payload with exactly the values and bytes encoded, whether the fixed header was read beforehand or is read as part of the decode. " + dec,
 ["inputs"], "every byte stream, header and remaining length",
 notest + "no packet is ever decoded.",
 [pk+"publish.go"], [("(*Publish).ReadFrom", pk+"publish.go")])
prop("C11", "PUBACK, PUBREC, PUBREL and PUBCOMP decoding is exact or an error",
 "Decoding a well-formed publish acknowledgement yields its packet identifier, reason code (0 when omitted), reason string and user properties exactly as encoded. " + dec,
 ["inputs"], "every byte stream and remaining length",
 notest + "no packet is ever decoded.",
 [pk+"puback.go"], [("(*Puback).ReadFrom", pk+"puback.go")])
prop("C12", "SUBACK and UNSUBACK decoding is exact or an error",
 "Decoding a well-formed SUBACK or UNSUBACK yields its packet identifier, properties and the full list of reason codes in order exactly as encoded; a body without any reason code is rejected. " + dec,
 ["inputs"], "every byte stream and remaining length",
 notest + "no packet is ever decoded.",
 [pk+"suback.go", pk+"unsuback.go"], [("(*Suback).ReadFrom", pk+"suback.go"), ("(*Unsuback).ReadFrom", pk+"unsuback.go")])
prop("C13", "DISCONNECT and AUTH decoding is exact or an error",
 "Decoding a well-formed DISCONNECT or AUTH body, including the empty body that stands for reason code 0 without properties, yields the reason code and properties exactly as encoded. " + dec,
 ["inputs"], "every byte stream and remaining length",
 notest + "no packet is ever decoded.",
 [pk+"disconnect.go", pk+"auth.go"], [("(*Disconnect).ReadFrom", pk+"disconnect.go"), ("(*Auth).ReadFrom", pk+"auth.go")])

prop("C14", "Each subscription option sets its own bits and no others",
 "For a topic built by any sequence of option calls (QoS 0-2, retain handling 0-2, no-local, retain-as-published, filter), the options byte sent is QoS in bits 0-1, no-local in bit 2, retain-as-published in bit 3, retain handling in bits 4-5 and zero in bits 6-7, each the value last set. The no-local bit is never set while the filter is a shared subscription ($share), in whichever order filter and option are set. No option call fails or panics for any filter.",
 ["inputs", "histories"], "every sequence of option calls with every argument and filter",
 notest + "no option setter is called by a test, and the guarantee is about every order of calls.",
 [pk+"topic.go"], [("Topic setters", pk+"topic.go")])

prop("C15", "A publish payload reads and writes as a byte stream with a cursor",
 "Successive reads of a publish yield the payload bytes in order, each exactly once, then end-of-file; successive writes fill the existing payload from the cursor on, in order, leaving all other payload bytes unchanged and reporting how many bytes were stored; both advance the same cursor by that count, never beyond the payload, and resetting returns the cursor to the start.",
 ["inputs", "histories"], "every payload, every sequence of reads, writes and resets with every buffer size",
 notest + "the cursor is never used.",
 [pk+"publish.go"], [("(*Publish).Read, Write, Reset", pk+"publish.go")])

prop("C16", "Topic filters match exactly the topics MQTT says they match",
 "A filter matches a topic exactly when MQTT 5 says so: levels compare equal, '+' stands for exactly one (possibly empty) level, a final '#' stands for the parent level and any number of further levels, a filter that starts with a wildcard does not match a topic that starts with '$', and a filter with a misplaced wildcard matches nothing. Matching terminates without panicking for every pair of strings.",
 ["inputs"], "every topic and filter string",
 "19 hand-picked pairs are tested; several unbounded families (empty levels, parent level of '#', unequal level lengths) are not reached.",
 [cl], [("(*Client).matchTopic", cl)])

prop("C17", "In-memory packet storage behaves as a map from identifier to packet",
 "After any sequence of operations, a lookup returns the packet most recently stored under that identifier and not dropped since, and reports no-entry otherwise. Storing under an identifier already present is refused with the duplicate error and changes nothing; dropping removes exactly that identifier and reports no-entry, changing nothing, when it is absent.",
 ["histories", "inputs"], "every sequence of store, get and drop with every identifier and packet, any number of entries",
 notest + "the storage is never used by a test.",
 ["mqtt/storage/memory/memory.go", "mqtt/storage/storage.go"], [("Storage.Store, Get, Drop", "mqtt/storage/memory/memory.go")],
 state=[("entries", "ordered list of identifier/packet pairs, identifiers pairwise distinct", "mqtt/storage/memory/memory.go")])

prop("C18", "Connecting succeeds exactly on an accepting CONNACK",
 "Connect writes exactly the CONNECT packet and reports success, and the client counts as connected, exactly when the server's first packet is a well-formed CONNACK with a reason code below 128; the connect event is then delivered to the event channels. A reason code of 128 or more closes the network connection and is returned as the error, any other packet type or a malformed or truncated answer gives an error, and in all these cases the client is not connected afterwards if it was not before.",
 ["inputs", "fault_sequences"], "every connect request, every byte stream answered by the server, every I/O failure point",
 notest + "Connect is never called by a test.",
 [cl], [("(*Client).Connect", cl)])

prop("C19", "Connecting adopts the negotiated keep alive and receive maximum",
 "After a successful connect the keep-alive interval is the server's value when the server sent a non-zero one and the requested value otherwise. The number of QoS 1 and 2 messages the client may have outstanding is the server's receive maximum, or 65535 when the server sent none, and the number it accepts from the server is the receive maximum it requested, or 65535 when it requested none.",
 ["inputs", "configurations"], "every requested and every returned parameter combination",
 notest + "Connect is never called by a test.",
 [cl], [("(*Client).Connect", cl)],
 state=[("send quota, receive quota", "remaining outbound / inbound QoS>0 publishes", cl)])

prop("C20", "Each inbound QoS packet is answered with exactly its MQTT reply",
 "For every well-formed packet polled from the server: a QoS 1 PUBLISH is answered by exactly one PUBACK, a QoS 2 PUBLISH by exactly one PUBREC, a PUBREC with reason code below 128 by exactly one PUBREL and a PUBREL by exactly one PUBCOMP, each carrying the same packet identifier, provided polling reports no error. Nothing is sent in reply to a QoS 0 PUBLISH, a failed PUBREC or any other packet, and a QoS 1 or 2 PUBLISH with packet identifier 0 is refused with an error.",
 ["inputs", "fault_sequences"], "every inbound packet, every storage result and I/O failure",
 notest + "Poll is never called by a test.",
 [cl], [("(*Client).Poll, sendPuback, sendPubrec", cl)])

prop("C21", "Outstanding QoS 1 and 2 messages stay within the receive maximums",
 "Sending a QoS 1 or 2 PUBLISH uses exactly one unit of the outbound allowance and is never done when none is left; each PUBACK, PUBCOMP or failed PUBREC (reason code 128 or more) gives back exactly one unit, never exceeding the server's receive maximum. Each inbound QoS 1 or 2 PUBLISH uses one unit of the inbound allowance until its PUBACK or PUBCOMP is sent, and one that arrives with no allowance left makes the client disconnect with reason 0x93 and report an error. QoS 0 publishes never change either allowance.",
 ["inputs", "histories", "schedules"], "every inbound or outbound packet from every allowance state, and every interleaving permitted by the locks",
 notest + "flow control is never exercised; exhaustion needs up to 65535 messages or particular interleavings.",
 [cl], [("(*Client).Publish, Poll, sendPuback", cl)],
 state=[("send quota, receive quota", "remaining outbound / inbound QoS>0 publishes", cl)])

prop("C22", "A received PUBLISH reaches every matching channel and every general one",
 "Every PUBLISH polled from the server is offered, without blocking, exactly once to each event channel binding whose subscribed filter matches its topic, to no binding whose filter does not match, and exactly once to every general event channel. The event carries the PUBLISH packet type and the decoded packet.",
 ["inputs", "histories"], "every topic, every set of bound and general channels, full or not",
 notest + "no event is ever delivered by a test.",
 [cl, "mqtt/events.go"], [("(*Client).Poll PUBLISH case, signal", cl)])

prop("C23", "Subscribe and Unsubscribe send one request and bind to their own reply",
 "Subscribe (Unsubscribe) sends exactly one SUBSCRIBE (UNSUBSCRIBE) packet that carries the given filters and options in order and a non-zero packet identifier no other pending request uses, and completes on the acknowledgement with that identifier. Once it returns, with or without an error, its identifier is free again. For each topic the server granted, the topic's event channel, if any, becomes bound to its filter, a failure reason code is returned as an error, and unsubscribing closes the channels bound to the given filters. An empty topic list or a disconnected client is refused with an error and nothing is sent.",
 ["inputs", "histories"], "every topic list, every acknowledgement content, every state of bindings",
 notest + "Subscribe and Unsubscribe are never called by a test.",
 [cl], [("(*Client).Subscribe, Unsubscribe", cl)])

prop("C24", "Disconnecting is sent once, closes the connection and ends the session",
 "Disconnecting a connected client sends exactly one DISCONNECT packet (reason 0x04 when the will is requested, 0 otherwise, with a session expiry only if the CONNECT had a non-zero one) as the last packet, closes the network connection, and leaves the client not connected; on a client that is not connected it returns the not-connected error and sends nothing. A DISCONNECT received from the server closes the connection, leaves the client not connected and is delivered as an event.",
 ["inputs", "fault_sequences"], "every client state, argument and I/O failure point",
 notest + "Disconnect is never called by a test.",
 [cl], [("(*Client).DisconnectWithSessionExpiry, disconnectWithReason, Poll", cl)])

prop("C25", "Keep alive sends a PINGREQ and a missing PINGRESP ends the connection",
 "On a connected client KeepAlive sends exactly the two-byte PINGREQ packet, and on one that is not connected it returns the not-connected error and sends nothing. A PINGRESP moves the response deadline to two keep-alive intervals from now; polling after that deadline, when a keep-alive interval is in force, closes the connection, marks the client not connected and returns the keep-alive-timeout reason, and with no interval in force never does.",
 ["inputs", "schedules"], "every keep-alive interval and every clock value",
 notest + "neither function is called by a test and time-outs depend on the clock.",
 [cl], [("(*Client).KeepAlive, Poll", cl)])

prop("C26", "Client locks are released on every return and taken in one order",
 "Every client operation, on every path including every I/O, storage or protocol error, returns with all of the client's locks released and never releases a lock it does not hold or acquires one it already holds. All operations acquire the locks in one common order, so no combination of concurrent calls can deadlock on them.",
 ["schedules", "fault_sequences"], "every path through every operation, every failure of the connection or storage, every interleaving of concurrent calls",
 notest + "no client operation is called; the faulty paths need an I/O or storage error or two goroutines.",
 [cl], [("lock/unlock statements of all client operations", cl)],
 state=[("connection, state and event locks", "mutual exclusion of client state", cl)])

prop("C27", "Polling consumes whole packets, so the stream never loses sync",
 "Whenever Poll reports success, it has consumed either no byte at all or exactly one complete control packet as delimited by its fixed header. A read deadline that expires before any byte arrived is reported as success with nothing consumed; one that expires inside a packet is never reported as success.",
 ["inputs", "schedules", "fault_sequences"], "every inbound byte stream and every point at which the read deadline can expire",
 notest + "Poll is never called, and the deadline can expire between any two bytes.",
 [cl, pk], [("(*Client).Poll and the packet decoders", cl)])

prop("C28", "Event channels are distinct, and closing one affects only that one",
 "Each created event channel is registered as a general channel under an identifier no other live channel has, with the requested capacity (at least one). Closing a channel closes its event and done channels, removes it and every filter bound to it, and leaves every other registration and binding unchanged. Signalling never blocks: each registered general channel gets the event if it has room, regardless of others being full.",
 ["histories", "inputs"], "every sequence of create, bind, close and signal; any number of channels",
 notest + "no event channel is created by a test.",
 [cl, "mqtt/events.go"], [("CreateEventChannel, CloseEventChannel, signal", cl)])

prop("C29", "No bytes sent by a server can crash the client",
 "For every byte stream a server can send, decoding packets, Connect, Poll and the operations waiting for a reply return a result or an error without panicking (no index, slice, length, nil-map, type-assertion or closed-channel fault) and without unbounded allocation beyond the announced packet size. This holds for malformed packets, for acknowledgements with too few or too many reason codes, of the wrong type or repeated, and in every client state.",
 ["inputs", "histories"], "every server byte stream, every pending request state",
 notest + "no server input is ever processed by a test.",
 [cl, pk, pr], [("ReadFrom of every packet and primitive, Poll, Connect, Subscribe, Unsubscribe", cl)])

prop("C30", "Publish sends one packet, persisted first, with a usable identifier",
 "Publishing on a connected client writes exactly the one PUBLISH packet of the message; for QoS 1 and 2 it carries the caller's packet identifier, or a freshly assigned non-zero one when the caller left it 0, and when a storage is set the message is stored under that identifier before it is sent. If storing fails the error is returned and nothing is sent; on a client that is not connected the not-connected error is returned and nothing is stored or sent.",
 ["inputs", "fault_sequences"], "every message, random-number source, storage and I/O behaviour",
 notest + "Publish is never called by a test.",
 [cl], [("(*Client).Publish", cl)])

prop("C31", "Persisted packets follow the acknowledgement handshake",
 "When a storage is set, a PUBACK, a PUBCOMP or a failed PUBREC drops the entry of its packet identifier, a successful PUBREC replaces that entry by the PUBREC, a received QoS 2 PUBLISH stores a PUBREC under its identifier and the PUBREL drops it. No other inbound packet changes the storage.",
 ["inputs", "histories"], "every inbound packet and storage content",
 notest + "persistence is never exercised.",
 [cl], [("(*Client).Poll", cl)])

prop("C32", "Client state is accessed only under its locks",
 "No operation of the client reads or writes the client's state (connection flag, intervals, quotas, channel tables, storage, random-number source), sends on or reads from the connection, or uses the storage without holding the lock that guards it, so concurrent operations of one client are free of data races on it. Locks are the ones the client documents by use: the same state is always guarded by the same lock.",
 ["inputs", "schedules"], "every operation, client state and interleaving",
 "Race freedom quantifies over all interleavings; there are no concurrent tests.",
 [cl], [("every method of Client", cl)])

prop("N01", "A blocked publish resumes once an acknowledgement frees the allowance",
 "A QoS 1 or 2 publish waiting for allowance is eventually sent after acknowledgements arrive, and calls waiting for an acknowledgement return when their context ends.",
 ["schedules"], "every fair schedule",
 "Liveness over all fair schedules; tests see single schedules.",
 [cl], [("(*Client).Publish, Subscribe, Unsubscribe", cl)])
prop("N03", "A QoS 2 message is delivered to the application exactly once",
 "Across redelivery, reconnection and restart with a persistent storage, each QoS 2 message sent by the server is signalled to the application exactly once.",
 ["histories", "crash_points"], "every sequence of redeliveries, disconnections and restarts",
 "Whole-history property over reconnects.",
 [cl], [("(*Client).Poll, storage", cl)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
