#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Every frame sent is a well-formed RFC 6455 server frame",
 "Every frame a connection puts on its transport is handed over in one write and is exactly an unmasked server frame: zero reserved bits, a defined opcode, a length field in the shortest form that equals the number of payload bytes following it, and nothing after the payload. Ping, pong and close frames are always final and carry at most 125 payload bytes, and a close frame is either empty or starts with a valid two-byte status code.",
 ["inputs", "configurations", "histories"], "all payload sizes, write-buffer sizes, opcodes, close codes and reasons, and all orders of earlier sends, pings and pongs on the same connection",
 "Tests send a handful of small messages and parse one close frame; lengths around 125/126/65535/65536, reused control buffers and header space are never covered.",
 ["frame.go", "conn_write.go", "broadcast.go"],
 [("writeHeaders lays the header in the space before the payload", "frame.go: writeHeaders"), ("control frame assembly", "conn_write.go: writeControl, writeClose"), ("single write", "conn_write.go: sendFrame")],
 [dict(name="start/used window", meaning="where the frame lies in the write buffer", where="conn_write.go: ConnWriter")], ["bytes given to the net.Conn"])

prop("C02", "A sent message reaches the wire byte for byte",
 "For every way of splitting a message into writes and flushes and every write-buffer size, the payloads of the frames emitted for that message, concatenated in order, are exactly the bytes the application wrote, in order, none lost, duplicated or altered. The first frame carries the requested message type, every later one is a continuation, and the frame emitted when the message is finished, and no other, is final.",
 ["inputs", "configurations", "histories"], "all sequences of writes and flushes of all lengths, both message types, all buffer sizes",
 "One test writes a buffer-sized message and checks only the returned count; nothing re-assembles what was sent.",
 ["conn_write.go", "frame.go"],
 [("buffer window and fragmentation", "conn_write.go: Write, flush, Close"), ("first frame / continuation choice", "conn_write.go: flush")],
 [dict(name="flushCount", meaning="frames of this message already sent", where="conn_write.go: ConnWriter")], ["bytes given to the net.Conn", "return values of Write/Close"])

prop("C03", "Data messages never interleave and are never passed off as complete",
 "On one connection, after the first frame of a data message only control frames and the remaining frames of that same message appear until its final frame, whatever mixture of direct sends, broadcasts and batches runs concurrently. If sending a message through the whole-message send calls or a batch fails part-way, the library never marks what was sent as complete: either nothing of it is on the wire or the connection is closed.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of senders, broadcasts, batches and control frames, and a failure or context expiry at any point of a send",
 "No test sends concurrently with a broadcast or makes a send fail part-way.",
 ["conn_write.go", "broadcast.go", "conn_batcher.go"],
 [("message lock held from the first to the last frame", "conn_write.go: NextWriter, Close"), ("broadcast frame write", "broadcast.go: writeToConn"), ("abandoning a message", "conn_write.go: SendMessage, SendJSON; conn_batcher.go: sendWrapper")],
 None, ["frame sequence on the transport"])

prop("C04", "Transport writes are exclusive and the close frame is the last",
 "At any moment at most one goroutine is writing to a connection's transport, so bytes of two frames never mix. Once a close frame has been written to a connection, no further frame of any kind is written to it.",
 ["schedules"], "all interleavings of data writers, pings, pongs, broadcasts and closers",
 "The tests use one goroutine per connection; exclusion is a property of all schedules.",
 ["conn_write.go", "broadcast.go", "conn_utils.go"],
 [("per-connection frame lock", "conn_utils.go: mu; conn_write.go: flush, writeControl, writeClose; broadcast.go: writeToConn"), ("closing keeps the frame lock forever", "conn_write.go: writeClose")],
 None, ["writes on the net.Conn"])

prop("C05", "No call leaves a lock behind or waits for a lock it holds",
 "Every send, ping, broadcast, batch, read and close call that returns, with or without an error, has released everything it acquired (except that a successfully opened message writer stays reserved until it is closed), so a failed call never blocks later ones. No call ever waits for a lock or a one-time action that the calling goroutine itself is holding or executing.",
 ["schedules", "fault_sequences", "inputs"], "every return path, including write errors, deadline errors, expired contexts and values that cannot be encoded",
 "Tests exercise success paths only; a leaked or re-entered lock shows up only after a failure.",
 ["conn_write.go", "conn.go", "broadcast.go", "conn_batcher.go", "manager.go", "rooms_manager.go"],
 [("lock/unlock pairing", "conn_write.go; broadcast.go; conn_utils.go"), ("closing is run once", "conn.go: CloseWithCode"), ("registry locks", "manager.go; rooms_manager.go")],
 None, ["termination of later calls on the same connection"])

prop("C06", "Inbound frame headers are decoded and validated exactly",
 "For every byte sequence a client sends, the frame's final flag, type, payload length (7-, 16- and 64-bit forms) and masking key are taken exactly as RFC 6455 encodes them. Frames with reserved bits set, an undefined opcode, no mask, an out-of-sequence type (a message not starting with text/binary, a fragment that is not a continuation), or a control frame that is fragmented or longer than 125 bytes are never accepted: the connection is closed with a protocol error (1002) and a fatal error is returned.",
 ["inputs", "histories"], "all header bytes, all lengths, all preceding control frames",
 "The tests read a single hand-made 7-byte frame.",
 ["conn_read.go", "frame.go"],
 [("header parsing", "conn_read.go: acceptFrame"), ("sequence checks", "conn_read.go: NextReader, Read; conn_utils.go: skipRestOfMessage")],
 [dict(name="ConnReader", meaning="state of the frame being read", where="conn_read.go")], ["ReadMessage/NextReader/Read results", "close frame sent"])

prop("C07", "Received payload is delivered unmasked and exact",
 "Every byte handed to the application is the frame payload byte XORed with the masking-key byte for its position in that frame, in stream order with nothing skipped, repeated or left masked, independently of how the reads are sized, how the transport chunks the data and whether the read also reports an error. The masking routine itself is exactly this XOR for every length, key and starting position and changes nothing else.",
 ["inputs", "schedules", "fault_sequences"], "all payloads, keys, frame lengths, read sizes and transport chunkings",
 "The only masking test round-trips one 11-byte string, which any involution passes.",
 ["mask.go", "conn_read.go"],
 [("word-at-a-time XOR", "mask.go: mask, maskGo"), ("position carried across reads", "mask.go: ConnReader.mask; conn_read.go: Read")],
 [dict(name="maskPos", meaning="key phase inside the current frame", where="conn_read.go: ConnReader")], ["bytes returned by Read/ReadMessage"])

prop("C08", "Each read starts at a message boundary",
 "A read call for the next message always starts parsing at the first byte of a frame, no matter how much of the previous message the application consumed (partly read, type mismatch, JSON error, rate limited). Payload bytes are never interpreted as frame headers and header bytes are never delivered as payload.",
 ["inputs", "histories"], "all sequences of read calls, of partial reads and of messages, fragmented or not",
 "No test reads two messages on one connection.",
 ["conn_read.go", "conn_utils.go"],
 [("skipping what is left of the previous message", "conn_read.go: NextReader; conn_utils.go: skipRestOfMessage"), ("bytes left in the frame", "conn_read.go: Read")],
 [dict(name="remaining/fin", meaning="unread bytes of the frame, last frame of the message", where="conn_read.go: ConnReader")], ["sequence of messages returned"])

prop("C09", "Inbound size and fragment limits are enforced",
 "With a maximum message size configured, a message whose frames total more than it is never delivered in full: reading stops with close code 1009 and a fatal error before the frame that exceeds it is delivered; with -1 no size limit applies. With a maximum fragment count N configured, at most N frames of one message are accepted, and the next one closes the connection with 1008.",
 ["inputs", "configurations"], "all limits (including -1 and the maximum integer) and all frame-length sequences",
 "No test configures or reaches a limit.",
 ["conn_read.go"],
 [("per-frame limit", "conn_read.go: acceptFrame"), ("running total and fragment count", "conn_read.go: NextReader, Read")],
 [dict(name="totalSize/fragments", meaning="size and frame count of the current message", where="conn_read.go: ConnReader")], ["errors and close codes"])

prop("C10", "Whole-message reads honour message type and UTF-8",
 "Reading a whole message returns its type and payload only when it was read completely, and a text message is returned only if its payload is valid UTF-8, unless validation was switched off; invalid text closes the connection with 1007 and returns a fatal error. The string and binary readers return a payload only for a message of their own type, and otherwise a non-fatal type-mismatch error, leaving the connection open.",
 ["inputs", "configurations"], "all payloads, both types, validation on and off",
 "Two tests with the same invalid byte; binary, mismatch and valid text are not covered.",
 ["conn_read.go"], [("validation and type checks", "conn_read.go: ReadMessage, ReadString, ReadBinary, ReadJSON")], None, ["return values", "close code"])

prop("C11", "Pings are answered with identical pongs",
 "Every valid ping is answered, before the next inbound frame is handled, by exactly one pong with exactly the ping's unmasked payload, or the connection is closed because the pong could not be written or the payload could not be read. Pongs never produce output, an empty pong answering an outstanding ping allows the next ping to be sent, and while a ping is outstanding no second one is sent.",
 ["inputs", "histories", "schedules"], "all ping payloads (0 to 125 bytes), all histories of pings and pongs",
 "No test sends a ping or a pong.",
 ["conn_read.go", "conn_write.go", "conn.go"],
 [("pong reply", "conn_write.go: pong, writeControl"), ("ping state", "conn_write.go: Ping; conn.go: handlePong")],
 [dict(name="pingSent", meaning="a ping awaits its pong", where="conn.go: Conn")], ["frames on the transport"])

prop("C12", "A peer's close frame is answered correctly",
 "On a close frame with a valid status code and UTF-8 reason the connection is closed echoing that code; with an empty payload it is closed normally (1000); with a one-byte payload, an invalid status code or an invalid UTF-8 reason it is closed with 1002. Valid codes are exactly 1000-1003, 1007-1011 and 3000-4999, and a code outside this set is never sent, whatever the caller passes to the close call.",
 ["inputs"], "all close payloads up to 125 bytes, all 65536 codes, all reasons",
 "Tests never receive a close frame and send one code.",
 ["conn.go", "frame.go", "conn_write.go"],
 [("close parsing", "conn.go: handleClose"), ("code check", "frame.go: isValidCloseCode"), ("code substitution", "conn_write.go: writeClose")], None, ["close frame sent"])

prop("C13", "Closing happens once and cleans up everything",
 "However many goroutines close a connection and however often, exactly one close frame is attempted, the transport is closed, and the disconnect hook and the deregistration callbacks each run exactly once. When the close call that did the work returns, the connection is signalled as closed and has left its room or manager, the rate limiter and the batch flusher, and a pooled write buffer goes back to the pool at most once and only when no writer can still use it.",
 ["schedules", "fault_sequences", "histories"], "all concurrent closers, close at any point of another operation, failing transports",
 "Tests close idle connections once from one goroutine.",
 ["conn.go", "conn_write.go"],
 [("close once", "conn.go: CloseWithCode"), ("close frame and transport close", "conn_write.go: writeClose"), ("deregistration", "conn.go: onClose; rate_limiter.go: removeClient; flusher.go: remove")], None, ["hooks", "registries", "net.Conn.Close"])

prop("C14", "A fatal error means the connection is closed",
 "Whenever a read, write, flush, ping or broadcast step on a connection reports a fatal error, that connection has been closed by the time the error is returned. Whenever a transport write or a frame read fails, the operation does not report success and the connection is closed before the call returns.",
 ["inputs", "fault_sequences", "schedules"], "every error path: protocol violations, transport failures, deadlines, limits, hooks returning errors",
 "Tests trigger one fatal error (invalid UTF-8) and do not check that the connection closed.",
 ["conn_read.go", "conn_write.go", "broadcast.go", "conn.go", "errors.go"],
 [("close before returning fatal", "conn_read.go; conn_write.go; broadcast.go"), ("classification", "errors.go: fatal, IsFatalErr")], None, ["IsFatalErr(err) vs. closed state"])

prop("C15", "Only valid upgrade requests are upgraded",
 "A request is upgraded only if it is a GET with an Upgrade token websocket, a Connection token upgrade (both case-insensitive, in a comma-separated list), version 13, a key that is base64 of 16 bytes, an acceptable subprotocol when raw clients are rejected, and every middleware returned nil. In every other case the connection is not taken over, no connection object is returned and an error is.",
 ["inputs", "configurations"], "all header values and all middleware outcomes",
 "The handshake has no tests at all.",
 ["upgrader.go"], [("validators", "upgrader.go: validate*"), ("order of checks", "upgrader.go: Upgrade")], None, ["HTTP status", "hijack", "return values"])

prop("C16", "The handshake response is exactly right",
 "An accepted request is answered with one 101 response carrying the Upgrade and Connection headers, the accept value base64(SHA-1(key + GUID)) for the request's key, and the selected subprotocol if any, and no WebSocket frame precedes it. The selected subprotocol is the first in the client's list that the server supports, none otherwise, and is what the connection reports.",
 ["inputs", "configurations"], "all keys and protocol lists",
 "The handshake has no tests at all.",
 ["upgrader.go"], [("response assembly", "upgrader.go: Upgrade"), ("subprotocol choice", "upgrader.go: selectSubProtocol")], None, ["bytes written during the handshake", "Conn.SubProtocol"])

prop("C17", "No client byte is lost in the hand-over from HTTP",
 "The bytes the connection reads are exactly the bytes already buffered by the HTTP server followed by the rest of the transport stream, in order, for every read-buffer configuration. Every conforming control frame can be read whatever read-buffer size is configured.",
 ["inputs", "configurations"], "all amounts of early data, all read-buffer sizes, all read sizes",
 "Tests bypass the HTTP hand-over.",
 ["conn.go", "upgrader.go"], [("reader choice", "conn.go: newConn"), ("draining the HTTP buffer first", "upgrader.go: brNetConn.Read")], None, ["first bytes read"])

prop("C18", "The manager maps each key to its current connection",
 "After a connection is registered under a key, lookups return it until it is unregistered, closed or replaced; registering under an occupied key closes the previous connection and installs the new one, and the later closing of the replaced connection never removes or reports the new one. Listing and broadcasting cover exactly the registered connections whose keys are not excluded, and a registered connection that closes is removed and reported as unregistered exactly once.",
 ["histories", "schedules", "inputs"], "all sequences of register, close, replace, lookup and list, from any number of goroutines",
 "The only manager test builds one managed connection and reads its fields.",
 ["manager.go", "conn.go"], [("registry", "manager.go: Register, unregister, Get, GetAllConns, GetAllConnsAsConn"), ("close callback", "conn.go: newManagedConn")],
 [dict(name="conns", meaning="key to connection", where="manager.go: Manager")], ["Get/GetAllConns", "OnRegister/OnUnregister"])

prop("C19", "Room membership and hooks follow joins and leaves exactly",
 "A connection is in a room exactly from being added until it is removed, moved, the room is emptied or the connection closes; adding a member or removing a non-member changes nothing and calls no hook, each real join or leave calls the join or leave hook (if set) exactly once, and absent hooks are never called. A closed connection ends up in no room it was added to, and adding to or removing from one room or manager never affects membership of another.",
 ["histories", "schedules"], "all sequences of add, remove, move, empty and close over any rooms and connections",
 "Rooms have no tests.",
 ["rooms_manager.go", "conn.go"], [("membership", "rooms_manager.go: Room.Add, Remove, RemoveAll, Move, GetAllConns"), ("automatic removal", "conn.go: onClose"), ("room registry", "rooms_manager.go: RoomManager.Add, Get, GetRoomKeys, Room.Close")],
 [dict(name="conns", meaning="members of the room", where="rooms_manager.go: Room")], ["GetAllConns", "OnJoin/OnLeave"])

prop("C20", "A broadcast reaches each target at most once and is counted",
 "A broadcast hands exactly one well-formed, unfragmented frame of the requested type with exactly the given payload to each target's queue at most once and to no other connection, and returns the number of queues that took it. When a queue is full the configured policy decides: drop skips the target, close closes it, wait waits for room, for the context or for the target's close; unknown policies aside, a broadcast never stops early except on context expiry (or flusher shutdown for batches), and it never blocks forever on a closed connection.",
 ["inputs", "schedules", "configurations"], "all target lists, payloads, queue states and policies",
 "Broadcasting has no tests.",
 ["broadcast.go", "manager.go", "rooms_manager.go"], [("fan-out", "broadcast.go: Upgrader.broadcast, batchBroadcast"), ("target selection", "manager.go: broadcast; rooms_manager.go: broadcast")], None, ["per-connection queues", "returned count and error"])

prop("C21", "Batched messages are sent once, in order, within the size limit",
 "Every message accepted for batching on a connection is put in exactly one batch, and batches and the messages in them are sent in the order in which the messages were accepted. A batch's messages never total more than the configured maximum unless it holds a single message, and a message is refused with an error when batching is off, its flusher is closed, its context is over or the connection is closed.",
 ["schedules", "histories", "inputs", "configurations"], "all sequences and interleavings of batching calls and flushes, all message sizes and limits",
 "Batching has no tests.",
 ["conn_batcher.go", "flusher.go"], [("queue and size accounting", "conn_batcher.go: Batch, flush"), ("periodic flush", "flusher.go: flushAll")],
 [dict(name="messages/totalSize", meaning="accepted but unsent messages", where="conn_batcher.go: messageBatch")], ["batches passed to the encoder"])

prop("C22", "Batch encodings are exact",
 "A JSON batch is one binary message consisting of '[', the optional prefix, the messages in order and the optional suffix separated by single commas, and ']', nothing else. A length-prefixed batch is one binary message consisting of the optional prefix, the messages in order and the optional suffix, each preceded by its length as a 4-byte big-endian integer, nothing else.",
 ["inputs"], "all message lists, with and without prefix and suffix",
 "Batching has no tests.",
 ["conn_batcher.go"], [("encoders", "conn_batcher.go: jsonArrayEncoder, lengthPrefixEncoder, sendWrapper")], None, ["payload of the batch message"])

prop("C23", "Rate limiting is per connection and per message",
 "Each connection has its own token bucket with the configured rate and burst, created before its first message can be read and removed on close; one token is taken per data message and none for control frames or continuation frames. A message over the limit is dropped whole: none of its bytes are delivered, the limit hook is called once, and unless the hook returns an error the next message is read normally.",
 ["histories", "inputs", "configurations"], "all message sequences, fragmented or not, all limiter outcomes",
 "The limiter has no tests.",
 ["rate_limiter.go", "conn_utils.go", "conn_read.go"], [("buckets", "rate_limiter.go"), ("limit check", "conn_utils.go: allow; conn_read.go: NextReader")],
 [dict(name="clients", meaning="bucket per connection", where="rate_limiter.go: RateLimiter")], ["messages returned", "OnRateLimitHit"])

prop("C24", "Shared registries are only touched under their lock",
 "Every access to the state shared between goroutines (manager and room registries, room members, rate-limiter buckets, flusher members, batch queues, close callbacks, per-connection write and control buffers) is made while holding the lock that protects it, exclusively when modifying. No goroutine releases a lock it does not hold.",
 ["schedules"], "all schedules of all public operations",
 "Race freedom is a statement about all schedules; the suite is single-threaded and does not run under the race detector.",
 ["manager.go", "rooms_manager.go", "rate_limiter.go", "flusher.go", "conn_batcher.go", "conn_write.go", "conn.go"],
 [("mutexes", "manager.go; rooms_manager.go; rate_limiter.go; flusher.go; conn_batcher.go"), ("channel locks", "conn_utils.go: mu")], None, ["race detector"])

prop("C25", "User callbacks run without internal locks",
 "Whenever a hook, middleware, limit callback, batch prefix/suffix function or custom batch sender supplied by the application is called, the library holds none of its registry, callback or transport locks and is not inside its one-time close action. A callback may therefore call any operation of the library, including closing the same connection, without deadlock.",
 ["schedules", "histories"], "all callbacks, called from every operation that can reach them",
 "No test installs a hook.",
 ["conn.go", "manager.go", "rooms_manager.go", "rate_limiter.go", "conn_batcher.go"],
 [("hooks called after unlocking", "manager.go; rooms_manager.go"), ("close hooks", "conn.go: CloseWithCode")], None, ["re-entrant calls from hooks"])

prop("C26", "Unset options get their documented defaults and set ones are kept",
 "Creating an upgrader fills every option left at zero with its documented default (5 s write wait, 1 min read wait, 50 s ping interval, 1 MiB message and batch limits, 4096-byte write buffer, 8 queued broadcasts) and keeps every valid value the application set. The buffers a connection gets have the configured size and always leave room for a frame header and at least one payload byte.",
 ["configurations"], "all option values", "Tests use two fixed option sets and read back none.",
 ["options.go", "upgrader.go", "conn.go", "conn_write.go"], [("defaults", "options.go: WithDefault"), ("construction", "upgrader.go: NewUpgrader; conn_write.go: newWriter")], None, ["Options fields after NewUpgrader"])

prop("C27", "Shutdown closes every tracked connection and returns",
 "Shutting down a manager or room manager closes every connection tracked at that moment, leaves the registry without them, and holds no registry lock while closing or waiting, so it cannot deadlock with the connections' own deregistration or with hooks. Room manager shutdown closes with 1001 and manager shutdown with 1000.",
 ["schedules", "histories"], "all registry contents, including empty ones, and hooks that call back",
 "Shutdown has no tests.",
 ["manager.go", "rooms_manager.go"], [("shutdown", "manager.go: Shutdown; rooms_manager.go: RoomManager.Shutdown")], None, ["close frames", "return of Shutdown"])

prop("C28", "Background goroutines end with their connection or flusher",
 "Every goroutine the library starts for a connection (ping loop, broadcast listener) only ever waits in a way that the closing of that connection ends, and then terminates; the flusher's goroutine likewise ends on its close or context end. A failed handshake leaves no goroutine, registration or open transport behind.",
 ["schedules", "histories", "fault_sequences"], "closing at any moment, handshake failing at any step",
 "Tests never check for leaked goroutines.",
 ["conn.go", "broadcast.go", "flusher.go", "upgrader.go"], [("loops watching the close signal", "conn.go: pingLoop; broadcast.go: broadcastListener; flusher.go: listener"), ("failed handshake", "upgrader.go: Upgrade")], None, ["goroutine count after close"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
