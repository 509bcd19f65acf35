#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they can be edited as prose)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Every NOTIFY frame is answered by exactly one matching ACK",
 """On a connection that stays up, every well-formed NOTIFY frame whose message handlers all return is answered by exactly one ACK frame,
 on the same connection, carrying the same stream-id and frame-id and exactly the actions its handlers recorded, in message order and
 then in call order. A NOTIFY frame for which a handler panicked, or which is malformed, is never answered with an ACK, and no ACK is ever
 sent that does not belong to a NOTIFY frame.""",
 ["schedules", "inputs", "histories"],
 "all interleavings of any number of connections and NOTIFY frames with any number of messages, arguments and actions, and any ids",
 "The tests send single-message frames one after another; frames with several messages, concurrent workers and pooled buffers are only sampled by a load test that looks at HTTP status codes.",
 ["spop/protocol.go", "spop/frames.go", "spop/frame.go", "spop/scheduler.go", "pkg/encoding/actionwriter.go", "pkg/encoding/messagescanner.go"],
 [("NOTIFY handling and ACK creation", "spop/protocol.go:onNotify"), ("ACK serialisation", "spop/frames.go:AckFrame.writeTo")],
 [("jobs", "NOTIFY frames received and not yet answered", "spop/scheduler.go:queue")],
 ["bytes written to the accepted net.Conn", "calls of the Handler"])

prop("C02", "A handler sees exactly the messages and arguments HAProxy sent",
 """For every well-formed NOTIFY frame the handler is called exactly once per message, in the order of the messages and never concurrently
 for one frame, with exactly the name and the typed arguments that were sent. What a handler sees of its message does not change until it
 returns, no matter which other frames arrive on any connection meanwhile, and does not depend on how much of the previous messages'
 arguments was read.""",
 ["schedules", "inputs", "histories"],
 "all message and argument lists, all interleavings of frames over connections and workers, all amounts of arguments a handler reads",
 "Tests have one message per frame and read all arguments immediately; buffer reuse across concurrent frames and partially read messages are not exercised.",
 ["spop/protocol.go", "spop/frame.go", "pkg/encoding/messagescanner.go", "pkg/encoding/kvscanner.go"],
 [("message iteration", "pkg/encoding/messagescanner.go:Next"), ("frame pool", "spop/frame.go:acquireFrame/releaseFrame")],
 [("frame pool", "frames whose buffers back the message of a running handler", "spop/frame.go")],
 ["calls of the Handler and what it reads from its Message"])

prop("C03", "Everything an SPOP connection sends is a sequence of whole frames",
 """The bytes the agent writes to a connection are at every moment a sequence of complete, well-formed SPOP frames followed by at most one
 incomplete frame that is still being written. Frames of concurrently finishing handlers, of the handshake and of the disconnect never mix,
 whatever the schedule and however long each single write takes.""",
 ["schedules", "fault_sequences"],
 "all interleavings of frame writers of one connection, with every write delayed arbitrarily",
 "Interleaving needs two handlers of one connection to finish between two writes of a third; no test delays or observes single writes.",
 ["spop/frame.go", "spop/frames.go", "spop/protocol.go"],
 [("write lock of a connection", "spop/frame.go:lockedWriter, writeTo")],
 [("write lock", "held from the first to the last byte of a frame", "spop/frame.go:lockedWriter")],
 ["order and content of Write calls on the accepted net.Conn"])

prop("C04", "SPOP handshake: HELLO first, one AGENT-HELLO, bad offers rejected",
 """The first frame on a connection must be a HAPROXY-HELLO with a max-frame-size between 256 and 2147483647; it is answered by exactly one
 AGENT-HELLO that states version 2.0 and the offered max-frame-size. If the first frame is anything else, or the offer is missing or out of
 range, no AGENT-HELLO is sent, no handler is called and the connection is closed.
 No handler runs and no ACK is sent before the AGENT-HELLO, and a connection never gets a second AGENT-HELLO.""".replace("\n If the first", " If the first"),
 ["inputs", "histories"],
 "all first frames, all offers of every integer type, all sequences of frames after them",
 "Tests cover three offers with a typed UINT32 value and never a frame in the wrong order.",
 ["spop/protocol.go", "spop/frames.go"],
 [("first-frame check", "spop/protocol.go:Serve"), ("offer validation", "spop/protocol.go:onHAProxyHello")],
 [("gotHello", "handshake done", "spop/protocol.go"), ("maxFrameSize", "negotiated limit", "spop/protocol.go")],
 ["frames written to the accepted net.Conn", "calls of the Handler", "Close of the accepted net.Conn"])

prop("C05", "Frame size limits hold exactly, in both directions",
 """A received frame is accepted if and only if its length does not exceed the limit in force: 65535 bytes before the handshake and the
 negotiated max-frame-size, however large, after it; a longer frame is never handled and ends the connection. The agent never sends a frame
 longer than the negotiated max-frame-size: an ACK of exactly that size is sent, a larger one is not sent at all and the connection stays
 usable.""",
 ["inputs", "configurations"],
 "all negotiated sizes, all frame lengths around the limits in both directions, any preceding history of buffer growth",
 "Tests look at the boundary for received frames before the handshake only, and never at an ACK near or above the limit.",
 ["spop/frame.go", "spop/frames.go", "spop/protocol.go", "pkg/buffer/slicebuf.go", "pkg/encoding/actionwriter.go"],
 [("length check on read", "spop/frame.go:readFrom"), ("length check of an ACK", "spop/frames.go:AckFrame.writeTo")],
 [("maxFrameSize", "negotiated limit of the connection", "spop/protocol.go")],
 ["frames written to the accepted net.Conn", "calls of the Handler"])

prop("C06", "A fault in one SPOP frame or connection stays contained",
 """A panicking handler, a malformed or unknown frame, or a failing connection never ends the process and never prevents other frames, on
 other connections, from being handled and answered. A panicking handler, an undecodable NOTIFY payload or an unknown frame type costs at
 most the frame that caused it: later frames of the same connection are still answered. No number of such faults reduces the agent's
 capacity to handle frames.""",
 ["inputs", "fault_sequences", "histories"],
 "all byte sequences received, all placements of panics, write and read errors, repeated any number of times",
 "One test panics in one handler on one connection; malformed input, many faults and faults next to healthy traffic are not tested.",
 ["spop/agent.go", "spop/protocol.go", "spop/scheduler.go", "pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go"],
 [("panic containment", "spop/agent.go:wrapPanic"), ("worker loop", "spop/scheduler.go:queueWorker")],
 [("workers", "goroutines serving the queue", "spop/scheduler.go")],
 ["process exit", "frames written to every net.Conn"])

prop("C07", "The end of an SPOP connection reaches peer, socket and handlers",
 """When HAProxy disconnects, closes the connection, breaks the protocol, or asked for a health check, the agent closes its side of the
 connection and cancels the context of every handler still running for it; a HAPROXY-DISCONNECT and a protocol error are answered by an
 AGENT-DISCONNECT frame before that, and a health check by an AGENT-HELLO as the only frame. As long as none of this happened the
 connection is neither closed nor sent an AGENT-DISCONNECT, and the context passed to its handlers is not cancelled.""",
 ["schedules", "fault_sequences", "histories"],
 "all points at which a connection can end, with any number of handlers running or queued, on any number of connections",
 "One test cancels on HAProxy's exit through a real TCP connection; the reply, the socket and queued or other connections' handlers are not looked at.",
 ["spop/protocol.go", "spop/agent.go"],
 [("disconnect handling", "spop/protocol.go:onHAProxyDisconnect"), ("connection teardown", "spop/protocol.go:Close"), ("health check", "spop/protocol.go:onHAProxyHello")],
 [("ctx", "context of the handlers of a connection", "spop/protocol.go")],
 ["context passed to the Handler", "Close of the accepted net.Conn", "frames written"])

prop("C08", "Every received NOTIFY frame is handled once, without loss or stall",
 """No NOTIFY frame received on a live connection is lost, handled twice or left waiting while fewer handlers are busy than the agent has
 workers (one per CPU), however many frames arrive at once over however many connections. When all workers are busy further frames wait, and
 every one of them is handled once workers become free again, in some order, with no deadlock.""",
 ["schedules", "histories"],
 "all arrival patterns beyond the queue capacity, all orders in which blocked handlers return, any number of CPUs",
 "Wake-up and wrap-around faults of the bounded queue need it to be full or empty at the right moment; the load test never blocks handlers.",
 ["spop/scheduler.go", "spop/protocol.go"],
 [("bounded queue", "spop/scheduler.go:Put/Get"), ("workers", "spop/scheduler.go:queueWorker")],
 [("elems/head/tail/size", "ring buffer of waiting frames", "spop/scheduler.go:queue")],
 ["calls of the Handler", "ACK frames written"])

prop("C09", "How the network splits the byte stream makes no difference",
 """For both protocols, what is handled and what is answered depends only on the bytes received, not on how they were split into segments or
 merged: any number of frames or messages may arrive in one segment, and any of them may arrive byte by byte. In particular nothing that
 directly follows a handshake in the same segment is lost.""",
 ["inputs", "schedules"],
 "all ways of cutting all received byte streams into segments",
 "Tests write one frame per Write call over loopback, where segments practically coincide with frames.",
 ["spop/frame.go", "peers/protocol.go", "peers/messages.go"],
 [("full reads", "spop/frame.go:readFrom"), ("message reads", "peers/protocol.go:rawMessage.ReadFrom"), ("handshake reads", "peers/messages.go:Handshake.ReadFrom")],
 (), ["calls of the handlers", "bytes written to the accepted net.Conn"])

prop("C10", "Varint encoding and decoding are exact inverses of the protocol's format",
 """Every 64 bit unsigned integer is encoded to the unique byte sequence the SPOE and peers protocols define for it, every such sequence is
 decoded to that integer by both the buffer and the stream decoder, which report or consume exactly its length. A buffer too small for the
 encoding gives an error, and so does a truncated sequence; neither panics, and nothing beyond the given buffer is touched.""",
 ["inputs"],
 "all 2^64 values, all buffer sizes, all byte sequences and truncations",
 "Unit tests try a handful of values in sufficiently large buffers.",
 ["pkg/encoding/varint.go"],
 [("codec", "pkg/encoding/varint.go:PutVarint/Varint/ReadVarint")], (), ["return values and buffer contents of the public functions"])

prop("C11", "Typed key-value lists and messages decode exactly or report an error",
 """Scanning an encoded list of messages or key-value entries yields exactly the encoded names, types and values, in order and with
 nothing of an entry read before, stops after the announced number of entries and leaves the following bytes untouched. If the input is truncated anywhere, announces more than it contains,
 or has an unknown type, the scanner stops and reports an error after the entries preceding the fault, and never panics or returns bytes
 from outside its input. Skipping the rest of a list leaves the scanner exactly at its end.""",
 ["inputs", "histories"],
 "all byte sequences, all announced counts, all sequences of next, skip and remaining-length calls, with pooled and fresh scanners",
 "Unit tests decode one well-formed list of each kind.",
 ["pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go"],
 [("entry decoding", "pkg/encoding/kvscanner.go:Next"), ("message decoding", "pkg/encoding/messagescanner.go:Next")],
 [("left", "entries still to come", "pkg/encoding/kvscanner.go")], ["return values of the public scanner methods"])

prop("C12", "Action lists are encoded exactly as the protocol defines",
 """Any sequence of set-variable and unset-variable calls produces exactly the SPOE encoding of those actions, in order, for all scopes,
 names, value types and values, whatever the initial buffer size. A call that fails (an invalid address) adds nothing, and earlier actions
 and bytes before the starting offset are never changed.""",
 ["inputs", "histories"],
 "all sequences of calls, names and values, all initial buffers and offsets",
 "One unit test writes a few actions into a buffer that is large enough.",
 ["pkg/encoding/actionwriter.go", "pkg/encoding/encoding.go"],
 [("action encoding", "pkg/encoding/actionwriter.go"), ("growth", "pkg/encoding/actionwriter.go:grow")],
 [("data/off", "encoded actions", "pkg/encoding/actionwriter.go")], ["bytes returned by the writer"])

prop("C13", "Unmarshalling into a struct assigns exactly the tagged fields",
 """Unmarshalling a key-value list into a struct sets every tagged field to the value of the last entry with its key, leaves every other
 non-pointer field as it was, and sets pointer fields without an entry, or with a null entry, to nil. An entry whose type does not fit its
 field, or a malformed list, is reported as an error instead of being converted silently, and values stored in the struct are copies that do
 not change when the source buffer is reused or the struct is unmarshalled into again.""",
 ["inputs", "histories"],
 "all struct shapes over the supported field types, all entry lists (duplicates, unknown keys, nulls, every type), all previous contents of the struct",
 "Unit tests use four fixed structs and lists with each key once.",
 ["pkg/encoding/kvunmarshal.go", "pkg/encoding/kvscanner.go"],
 [("field assignment", "pkg/encoding/kvunmarshal.go:Unmarshal/setFieldValue/setValue")], (), ["the struct and the error after the call"])

prop("C14", "Key-value writers write whole entries or nothing",
 """Every entry written by a key-value writer is encoded exactly as the protocol defines, so that scanning the output yields the same names,
 types and values. An entry that does not fit into the remaining buffer, whatever its size relative to it, or an invalid address gives an
 error, leaves the entries written before and the rest of the writer's state unchanged, and never panics.""",
 ["inputs", "histories"],
 "all sequences of entries of all types and values, all buffer sizes including those that end within any part of an entry",
 "One unit test writes a few entries into a buffer that is large enough.",
 ["pkg/encoding/kvwriter.go", "pkg/encoding/encoding.go"],
 [("entry encoding", "pkg/encoding/kvwriter.go")], [("data/off", "encoded entries", "pkg/encoding/kvwriter.go")],
 ["return values and bytes of the writer"])

prop("C15", "Peers handshake: parsed exactly, answered by one leading status line",
 """A complete hello (protocol and version, remote peer name, local peer name with two process numbers) makes the peer send the status line
 "200" exactly once and before any other byte, even if the handler sends updates during its handshake callback, and hand exactly the parsed
 values to the handler once. A hello that is malformed or cut off is answered by no success status, no handshake or update callback happens,
 and the connection is closed.""",
 ["inputs", "schedules"],
 "all hello texts, names and numbers, all segmentations, all uses of the writer in the callback",
 "The tests always use one well-formed hello in one segment and a handler that does not write in the callback.",
 ["peers/protocol.go", "peers/messages.go"],
 [("handshake", "peers/protocol.go:peerHandshake"), ("hello parser", "peers/messages.go:Handshake.ReadFrom")],
 (), ["bytes written to the accepted net.Conn", "HandleHandshake calls"])

prop("C16", "Each stick-table update is delivered once, in order, for the right table",
 """Every entry update received on a connection is handed to that connection's handler exactly once, in the order received, with the key, data,
 expiry and presence flags that were sent, attributed to the table selected by the latest definition or switch message of that connection.
 Its update id is the transmitted one, or one more than that of the connection's previous update (modulo 2^32) when none is transmitted. What was handed over does
 not change afterwards, whatever else is received.""",
 ["inputs", "histories", "schedules"],
 "all sequences of definition, redefinition, switch, update, timed, incremental, acknowledge and control messages, on any number of connections",
 "The e2e tests print what one HAProxy sends; several tables, switches, id gaps and wrap-around are not checked.",
 ["peers/protocol.go", "peers/sticktable/sticktables.go"],
 [("update handling", "peers/protocol.go:StickTableUpdateMessageType.OnMessage")],
 [("lastTableDefinition", "selected table", "peers/protocol.go"), ("lastEntryUpdate", "source of the next implicit update id", "peers/protocol.go")],
 ["HandleUpdate calls"])

prop("C17", "Bad input on a peer connection affects only that connection",
 """Whatever bytes a peer sends after or instead of a handshake - unknown classes or types, lengths that are not backed by data, truncated or
 contradictory definitions and entries, unknown key or data types - and even if a handler callback panics, the process keeps running and all
 other connections keep delivering updates and answering. A message that cannot be decoded is never delivered as an update, and memory is
 used in proportion to what was received, not to what a message claims.""",
 ["inputs", "fault_sequences"],
 "all byte sequences received on any connection next to healthy ones",
 "No test sends a malformed message.",
 ["peers/protocol.go", "peers/peers.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/sticktable/constants.go"],
 [("message reading", "peers/protocol.go:rawMessage.ReadFrom"), ("panic containment", "peers/peers.go:Serve"), ("bounds checks", "peers/sticktable")],
 (), ["process exit", "HandleUpdate calls", "bytes written to other connections"])

prop("C18", "Peers stay alive: heartbeats, dead-peer detection, sync replies",
 """On every established peer connection a message is sent at least every 3 seconds, whatever HAProxy sends, the handler does or else is
 sent. As long as callbacks of the handler return promptly, a connection on which nothing was received for 5 seconds is closed then, and
 one on which messages keep arriving less than 5 seconds apart is never closed for inactivity.
 Every synchronisation request is answered by exactly one partial-synchronisation message, and no such message is sent otherwise.""",
 ["histories", "schedules"],
 "all arrival times of messages of every kind over arbitrarily long connections",
 "The tests are too short for a single heartbeat or timeout.",
 ["peers/protocol.go"],
 [("heartbeat", "peers/protocol.go:heartbeat"), ("inactivity timer", "peers/protocol.go:lastMessage/resetLastMessage"), ("sync reply", "peers/protocol.go:ControlMessageType.OnMessage")],
 [("nextHeartbeat", "ticker", "peers/protocol.go"), ("lastMessageTimer", "5s timer", "peers/protocol.go")],
 ["timed bytes written to the accepted net.Conn", "time of Close"])

prop("C19", "Peer handler callbacks follow one life cycle per connection",
 """For every accepted peer connection the handler sees at most one handshake callback, then updates, then exactly one close callback after
 which, and during which, nothing else is called; callbacks of one connection never overlap. The close callback happens however the
 connection ends - by the peer, by a timeout, by an error, by a panic, or by cancelling the base context - and the context passed to the
 callbacks is cancelled by then, but not before the connection ends.""",
 ["schedules", "fault_sequences", "histories"],
 "all ways and moments in which a connection can end, with a callback running or not",
 "The test handlers ignore the close callback and the context.",
 ["peers/protocol.go", "peers/peers.go"],
 [("life cycle", "peers/protocol.go:Serve/Close/shutdown"), ("connection goroutine", "peers/peers.go:Serve")],
 [("ctx", "connection context", "peers/protocol.go")], ["Handler callbacks and the state of their context"])

prop("C20", "Concurrent senders on a peer connection never corrupt its stream",
 """Definitions, switches and entries sent through a connection's writer by any number of goroutines, together with heartbeats and sync
 replies, appear on that connection as whole messages that decode to what was passed, those of one sender in the order sent and each
 successful call's messages once and completely before the call returns. Entry update ids increase strictly in stream order, and a call that
 fails, or panics, before sending leaves the stream intact and the writer usable.""",
 ["schedules", "inputs", "fault_sequences"],
 "all interleavings of senders, batches, heartbeats and replies, all entries including ones that cannot be encoded",
 "The writer tests use one goroutine and entries that can be encoded.",
 ["peers/writer.go", "peers/protocol.go", "peers/peers.go"],
 [("shared lock", "peers/writer.go:mu"), ("shared buffered writer", "peers/peers.go:Serve, peers/writer.go:bufferedWriter")],
 [("nextUpdateID", "id of the next entry", "peers/writer.go"), ("buf", "shared scratch buffer", "peers/writer.go")],
 ["bytes written to the accepted net.Conn"])

prop("C21", "Stick-table definitions and entries survive encoding and decoding",
 """Encoding a table definition (data types in ascending order) or an entry update of such a table, for every supported key type and data type
 and all values, gives exactly the peers protocol's encoding, and decoding it gives back an equal value and consumes all of it. Decoding
 truncated input, or encoding into a buffer that is too small, gives an error and neither panics nor invents data.""",
 ["inputs", "configurations"],
 "all definitions over the supported key and data types, all keys and values, all truncations and buffer sizes",
 "Unit tests round-trip one value per type and one definition with one data type.",
 ["peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/sticktable/constants.go"],
 [("definition codec", "peers/sticktable/sticktables.go:Definition"), ("entry codec", "peers/sticktable/sticktables.go:EntryUpdate"), ("value codecs", "peers/sticktable/values.go")],
 (), ["return values and buffers of the public methods"])

prop("C22", "Cancelling the base context stops accepting and reaches every handler",
 """After the base context of an agent or a peer is cancelled its listener is closed, its serve call returns an error, and the contexts passed
 to all handlers on all connections are cancelled. Before that the serve call does not return and the listener stays open, whatever happens
 on the connections. A serve call that has returned because its listener was closed can be repeated with another listener.""",
 ["schedules", "histories"],
 "all moments of cancellation relative to connections being idle, in a handshake, or in a running handler",
 "Tests cancel only when they are finished.",
 ["spop/agent.go", "peers/peers.go"],
 [("listener shutdown", "spop/agent.go:Serve"), ("listener shutdown", "peers/peers.go:Serve")],
 (), ["return of Serve", "Close of the listener", "contexts of the handlers"])

prop("C23", "Connections do not share protocol state",
 """What was negotiated, defined or sent on one connection - frame size limit, handshake state, table definitions, selected table, update ids,
 the connection and the writer found in a handler's context - has no effect on any other connection of the same agent or peer. An answer or
 update is only ever seen on the connection, and by the handler instance, that it belongs to.""",
 ["histories", "schedules"],
 "all interleavings of traffic on several connections with different negotiated sizes, tables and ids",
 "All tests have one connection at a time, or many identical ones.",
 ["spop/protocol.go", "peers/protocol.go", "peers/peers.go", "peers/writer.go"],
 [("per-connection client", "spop/protocol.go:newProtocolClient"), ("per-connection client and writer", "peers/peers.go:Serve")],
 [("protocolClient", "all state of a connection", "spop/protocol.go, peers/protocol.go")],
 ["frames per net.Conn", "callbacks per handler instance"])

prop("C24", "The slice buffer behaves as a byte queue",
 """For every sequence of writing, reading, advancing, growing and resetting within its capacity, the bytes read from a buffer are exactly the
 bytes written to it and not yet read, in order, and its length is their number. Growing keeps the unread and the already read bytes and
 makes at least the requested space available; it never loses or duplicates a byte.""",
 ["histories", "inputs"],
 "all sequences of operations within the capacity, all sizes and growth steps",
 "The package has no tests; it is only used along two fixed paths.",
 ["pkg/buffer/slicebuf.go"],
 [("offsets", "pkg/buffer/slicebuf.go")], [("readOffset/writeOffset", "bounds of the unread bytes", "pkg/buffer/slicebuf.go")],
 ["return values of the public methods"])

prop("C25", "What has ended is released",
 """However a connection ends - by a disconnect, by either side closing it, by an error, a broken peer, a panic of a handler or the cancelled
 base context - everything it needed is given back: no goroutine, timer or watcher keeps running for it and neither the connection nor its
 handler is kept in memory. The memory a connection needs does not grow with the number of frames it has carried.""",
 ["histories", "fault_sequences", "schedules"],
 "all ways of ending, in any number and mixture, at any point of a connection's life; any number of frames on one connection",
 "A test ends a handful of connections and then exits; a leak of one goroutine or one map entry per connection or frame changes nothing it looks at.",
 ["spop/agent.go", "spop/protocol.go", "spop/scheduler.go", "peers/peers.go", "peers/protocol.go"],
 [("end of a connection", "spop/protocol.go:Serve, Close"), ("frame pool", "spop/frame.go:acquireFrame/releaseFrame"), ("end of a connection", "peers/protocol.go:Serve, Close"),
  ("timers of a connection", "peers/protocol.go:Serve")],
 [("nextHeartbeat, lastMessageTimer", "timers of a connection, stopped with it", "peers/protocol.go")],
 ["number of goroutines", "reachability of connections and handlers after a garbage collection", "size of the heap"])

prop("C26", "A frame is written whole and as specified, or not at all",
 """Writing an agent's HELLO, DISCONNECT or ACK frame to any writer writes exactly one SPOP frame - its length, type, final flag, ids, and the
 version, frame size and capabilities, the status code and its message, or the recorded actions it was given - and returns the number of bytes
 written. If the frame cannot be built, because the callback of an ACK fails or the frame would be longer than 65535 bytes, nothing is written
 and an error is returned; an error of the writer is returned together with the number of bytes it took. Frames written at the same time, one
 inside the callback of another, or after one that failed, have no effect on each other.""",
 ["inputs", "fault_sequences", "schedules"],
 "all contents, ids and sizes, all points at which the writer or the callback fails or panics, all sequences and interleavings of frames",
 "Tests never write a frame to a failing writer and never look at the bytes of a DISCONNECT frame or at the returned count; buffers are shared through a pool.",
 ["spop/frames.go", "spop/frame.go", "spop/error.go"],
 [("frame serialisation", "spop/frame.go:writeTo"), ("frame construction", "spop/frames.go:WriteTo"), ("frame pool", "spop/frame.go:acquireFrame/releaseFrame")],
 [("pooled frame", "buffer the next frame is built in", "spop/frame.go:framePool")],
 ["bytes given to the io.Writer", "return values of WriteTo"])

prop("C27", "A peers handshake can be written and read back",
 """Writing a handshake gives the three lines of the peers protocol with its fields, and the number of bytes written or the error of the
 writer; a new handshake names this host and process and version 2.1. Reading it gives back every field, with either line ending and however
 the bytes are split into reads; it takes exactly the bytes of the three lines from the reader, returns their number, and leaves what follows
 to be read by others. A handshake that is cut off, lacks a field, has a word where a number belongs, or has a line without end is an error.""",
 ["inputs"],
 "all field values without blanks, all splits into reads, all truncations and malformed lines, all points at which the writer fails",
 "A test reads one well-formed handshake; the bytes after it, CR LF, failing writers and malformed lines are never used.",
 ["peers/messages.go"],
 [("reading", "peers/messages.go:Handshake.ReadFrom, readLine"), ("writing", "peers/messages.go:Handshake.WriteTo")], (),
 ["bytes taken from the io.Reader and given to the io.Writer", "return values", "fields of the Handshake"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    import re
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = len(re.findall(r"[.](\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
