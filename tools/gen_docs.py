#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=observe or [], state=state or [])

MON = "Held on the executions observed; counts are in the evidence file. "
PROPS = [
P("C01", "A stream delivers exactly the valid frames in the bytes, whole and in order",
  "For any bytes that arrive on a transport, a reading stream delivers exactly the frames that a left-to-right scan finds: at each start marker the candidate frame that its length byte and signature flag announce is delivered, byte for byte, if the dialects accept it, and the scan goes on behind it; otherwise the scan goes on at the next byte. Nothing is delivered twice, reordered, altered or invented, and garbage, corrupted or cut frames cost no valid frame that the scan reaches. A valid frame behind an incomplete false start at the very end of the bytes may go undelivered, as the stream is still waiting for that candidate's last bytes.",
  ["inputs", "configurations"], "all byte streams (mixes of V1, V2, signed, corrupt, mis-sized, unknown, truncated, nested frames and noise) and all dialect lists",
  "stream_test.go samples a few hand-made inputs of one dialect; resynchronisation depends on where false starts, nested frames and lengths fall relative to each other",
  ["stream.go", "dialect.go", "frame.go"],
  [("scan and resynchronisation", "stream.go: FrameStream.readFrame, peekHeader"), ("acceptance", "dialect.go: Dialects.Validate"), ("copy out of the scan buffer", "frame.go: FrameFromBytes")],
  "online/offline trace checking of delivered frames against a reference scanner (runtime monitoring)",
  MON + "Oracle: independent scanner, CRC and length tables (harness/ref). Assumes the golden message table."),
P("C02", "What a stream delivers does not depend on how the transport cuts the bytes",
  "The frames delivered, and their order, depend only on the bytes received: not on the sizes or timing of the transport's reads (single bytes, empty reads, datagrams of any size that UDP allows, reads that end with an error), nor on how quickly the consumer takes frames. When the transport reports an error, the frames completed before it are all delivered, and the stream then closes with the transport's error; an end of input inside a frame closes it with an end-of-input error.",
  ["inputs", "schedules", "fault_sequences"], "all byte streams, all segmentations of each into reads, all delays, all consumer speeds, all points at which the transport fails",
  "the tests use one whole-buffer reader; partial fills around the header, the frame end and the 558/4096-byte buffers are not sampled",
  ["stream.go"], [("buffered fill", "stream.go: FrameStream.readFrame (io.ReadAtLeast twice)"), ("error path", "stream.go: FrameStream.ReadContext, close")],
  "differential trace monitoring of one byte stream over eight transports under virtual time",
  MON + "An error's identity is compared with errors.Is; io.EOF and io.ErrUnexpectedEOF are both accepted for an end of input inside a frame."),
P("C03", "A frame is delivered as soon as its last byte has arrived",
  "As soon as the last byte of a valid frame has arrived, and every earlier candidate is decided, the frame is delivered to a waiting consumer without any further byte having to arrive. A stream never waits for more bytes than the candidate in hand needs.",
  ["inputs", "schedules"], "all byte streams, at every prefix of each",
  "tests only look at what was delivered at the end of the input; a reader that over-reads passes them and stalls on a live link",
  ["stream.go"], [("bytes-needed computation", "stream.go: FrameStream.readFrame")],
  "online monitor compares deliveries with the scan of every prefix at quiescence (virtual time)",
  MON + "Quiescence is decided by testing/synctest, not by a timeout."),
P("C04", "With invalid frames asked for, every candidate comes out once, in scan order",
  "A stream created to return invalid frames delivers, besides the valid frames, each candidate frame that the dialects reject (unknown message, too short, too long, bad checksum, or an error of a dialect's own), with exactly its own bytes, at its place in the scan order; the valid frames are the same as without that option. A stream created without it never delivers a frame that the dialects reject.",
  ["inputs", "configurations"], "all byte streams, dialect lists and both delivery modes",
  "the tests check one unknown frame; order and bytes of rejected candidates depend on overlaps",
  ["stream.go"], [("invalid-frame branch", "stream.go: FrameStream.readFrame")],
  "trace checking of all delivered candidates against a reference scanner",
  MON + "Oracle as in C01."),
P("C05", "No received bytes can make the library crash or touch bytes outside a frame",
  "Whatever bytes arrive, the stream neither panics nor stops while the transport works; and every frame it delivers, valid or not, and every frame built from a byte slice with a copy, can be validated, decoded, printed and read through all of its accessors without a panic. Building a frame from a slice fails with an error on an empty slice, an unknown start byte, or (with a copy) fewer bytes than the frame length given.",
  ["inputs"], "all byte strings, all frame headers, lengths and flags, all dialects",
  "tests feed well-formed frames; out-of-range slices need particular length/flag combinations",
  ["frame.go", "stream.go", "dialect.go", "common/v2_extension.go", "message.go"],
  [("length-checked scan", "stream.go: readFrame"), ("length check", "frame.go: FrameFromBytes"), ("payload padding", "*/: Message.Read")],
  "crash monitoring (Go bounds checks, panic capture) under hostile and mutated inputs",
  MON + "Frames that a caller builds by hand from fewer bytes than their header announces are outside the property."),
P("C06", "A delivered or built frame belongs to its receiver",
  "A frame that a stream delivered keeps its bytes whatever arrives later, and the receiver may overwrite it, up to its capacity, without any effect on other frames or on the stream. The same holds for frames built from messages, for frames copied from a slice, and for decoded messages with respect to the frame they came from.",
  ["histories", "inputs"], "all histories of arrivals, deliveries, decodes and overwrites",
  "tests look at each frame at once; aliasing shows only when frames are kept or changed while others arrive",
  ["stream.go", "frame.go"], [("copy on delivery", "stream.go: readFrame; frame.go: FrameFromBytes(makeCopy)"), ("fresh frame buffer", "stream.go: packFrame")],
  "aliasing monitor: snapshots of kept frames re-checked after later events and deliberate overwrites",
  MON),
P("C07", "Validation gives the right verdict on every frame and changes nothing",
  "For a complete frame, validation returns: unknown message if no dialect knows its ID; the dialect's own error if the dialect in charge of the ID reports one; too short for a V1 payload below the message's minimum; too long for a payload above its maximum; invalid checksum if the X.25 checksum over length..payload plus the message's CRC_EXTRA does not match; otherwise success; in this order of precedence. It never modifies the frame or the bytes behind it, and gives the same answer every time.",
  ["inputs", "configurations"], "all complete V1/V2/signed frames (valid, corrupted, boundary lengths, spare capacity behind the frame), all dialect lists",
  "tests cover one frame per error; boundary lengths, precedence and side effects are not sampled",
  ["dialect.go", "x25.go", "frame.go"], [("verdicts", "dialect.go: Dialects.Validate"), ("checksum", "x25.go: X25CRC"), ("covered bytes", "frame.go: GetChecksumInput")],
  "differential monitoring of verdicts against a reference validator, with before/after snapshots",
  MON + "Oracle: golden length and CRC_EXTRA tables."),
P("C08", "Frames built from messages follow the MAVLink wire format byte for byte",
  "A frame built from a message, a version, system and component IDs and a sequence number is exactly the MAVLink 1 or 2 frame for them: start marker, payload length, zero flags (V2), sequence, system, component and message ID in wire order, the fields in wire order, little-endian (V1 without extension fields; V2 with them and with trailing zero bytes removed, but never the first byte), and the checksum with the message's CRC_EXTRA. Every frame built so passes validation; messages and dialects that a user defines, with any 24-bit ID and any payload of at most 255 bytes, are framed by the same rules; and building leaves the message's fields as they were.",
  ["inputs", "programs"], "all message types of all dialects, all field values, header values and versions",
  "tests build a handful of messages; field order, truncation and header layout vary per message type and value",
  ["stream.go", "dialect.go", "util/util.go", "*/ (message files)"],
  [("header and checksum", "stream.go: packFrame"), ("payload", "*/: Message.Write"), ("truncation", "util: TruncateV2")],
  "differential monitoring of built frames against a reference encoder, all 329 message types",
  MON + "Oracle: golden field layouts, CRC_EXTRA confirmed by recomputation from names and types. V2Extension (variable payload) is C19."),
P("C09", "Decoding a frame gives every field exactly",
  "Decoding a valid frame gives a message of the type its ID names in the first dialect that knows it, with its ID and every field, of the kind of number that the definition says, equal, bit for bit, to the value on the wire; bytes that a V2 frame left off, and extension fields in a V1 frame, are zero; and it is marked as holding extension fields exactly if its type has them and the frame is a V2 one. Decoding into an existing message object leaves nothing of its previous value.",
  ["inputs", "programs", "histories"], "all message types, field values, versions and payload truncations; fresh and reused message objects",
  "tests decode a few messages; stale bytes and offsets depend on type, truncation length and reuse",
  ["dialect.go", "*/ (message files)", "*/dialect.go"], [("dispatch", "*/dialect.go: GetMessage"), ("payload padding and field decode", "*/: Message.Read")],
  "differential monitoring of decoded fields against a reference decoder, all 329 message types",
  MON + "NaN bit patterns are compared after the quieting recorded as C10's known finding."),
P("C10", "Decoding and rebuilding a frame reproduces it",
  "Decoding a valid unsigned frame and building it again with the same version and header values gives the same bytes, except that trailing zero bytes of a V2 payload are dropped; a second pass changes nothing further.",
  ["inputs", "programs"], "all message types, payload contents and lengths, both versions",
  "tests round-trip a few values; forwarding gateways meet every bit pattern",
  ["stream.go", "dialect.go", "*/ (message files)"], [("decode", "*/: Message.Read"), ("encode", "*/: Message.Write, stream.go: packFrame")],
  "round-trip trace monitoring with reference canonicalisation",
  MON + "Known finding: float32 signalling NaNs come out quiet."),
P("C11", "Unsupported versions and unknown messages are refused with the documented error",
  "Building with a version other than 1 and 2, and encoding a dialect's message with one, fails with the unsupported-version error; encoding or building a message whose ID does not fit a V1 frame as V1, and decoding one from a V1 frame, fail with their documented errors; so does building a frame for a payload of more than 255 bytes; an error of the message's own encoder is passed on; building a message that no dialect knows fails with the unknown-message error; and a failed build returns no frame. Decoding a frame that no dialect knows gives a message with that ID and the raw payload, together with the unknown-message error.",
  ["inputs", "configurations"], "all version numbers, message types, message IDs and dialect lists",
  "tests check one or two types; each generated file has its own version checks",
  ["dialect.go", "stream.go", "message.go", "*/ (message files)"], [("version checks", "stream.go: packFrame; */: Message.Write, Message.Read"), ("unknown", "message.go: UnknownMessage")],
  "error-contract monitor over all message types, versions and IDs",
  MON),
P("C12", "Every dialect knows exactly its messages, with the right lengths and CRC_EXTRA",
  "Each dialect answers for exactly the message IDs of its definition: it gives the right minimum and maximum payload length and CRC_EXTRA byte, and decodes the ID to the message type of that name, which tells whether its definition has extension fields; for every other 24-bit ID it answers unknown message. CRC_EXTRA equals the MAVLink hash of the message's name and field names and types.",
  ["inputs", "programs"], "all ten dialects and all 2^24 message IDs",
  "tests ask for a few IDs; one wrong table entry makes one message type unusable on the air",
  ["*/dialect.go", "*/ (message files)"], [("tables", "*/dialect.go: messages, metadata")],
  "exhaustive table probing through the public API against golden tables",
  MON + "The golden table is transcribed from the pinned tree; CRC_EXTRA values are independently recomputed."),
P("C13", "With several dialects, the first one that knows a message decides",
  "Given an ordered list of dialects, building, validating and decoding use the first dialect that does not answer 'unknown message' for the ID; an error other than 'unknown message' from a dialect is final; if all answer unknown, or the list is empty, the result is the unknown-message error.",
  ["configurations", "inputs"], "all ordered lists of dialects (empty, clashing definitions, failing dialects) and all IDs",
  "tests use one dialect; precedence needs clashing dialects",
  ["dialect.go"], [("resolution loops", "dialect.go: Dialects.GetMessage, GetFrame, Validate")],
  "model-based monitoring with clashing and failing dialects", MON),
P("C14", "Submitted frames are written once each, whole, in submission order",
  "While a stream is open, each frame submitted to it is handed to the transport in exactly one write of exactly its bytes, in the order of submission; closing the submission channel lets everything submitted before it, buffered or not, be written, and then closes the stream. After a failed write nothing more is written.",
  ["schedules", "histories", "fault_sequences"], "all submission histories by any number of producers, channel capacities, transport delays and write failures",
  "the tests write one frame to a buffer; order, loss and repetition need concurrent producers and faults",
  ["stream.go"], [("write loop", "stream.go: FrameStream.WriteContext")],
  "offline checker over recorded submit/write logs (exactly-once, order, silence after failure) under virtual time", MON),
P("C15", "A stream can be shut down at any moment without panic, hang or leak",
  "Whatever combination of Close calls (from any goroutine, including the consumer, the logger and the transport), cancelled contexts, deadlines, transport errors and a closed submission channel ends a stream, and whatever traffic is in flight: nothing panics and no data race occurs, every running loop returns once its own transport or logger call does, the transport is closed exactly once, the frame channel and the closed channel are closed, and once the loops have returned no goroutine of the library remains, even if the contexts live on. A loop that is started after the close returns too. Asking for the state of the stream from inside the transport's and the logger's methods returns. Repeated and concurrent Close calls are harmless; when one returns, the shutdown has been carried out, the closing of the transport included; and at most one submitted frame is still written afterwards.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of 1-5 shutdown causes with traffic in both directions, slow consumers, hanging writes and loggers",
  "no test closes a stream while frames move; the panics and hangs need coincidences",
  ["stream.go"], [("close protocol", "stream.go: FrameStream.close, deliver, closeWhenDone")],
  "runtime monitors on shutdown histories under virtual time in a race-detector build",
  MON + "Virtual-time coincidences make the competing causes run together; schedules within an instant are the race build's random ones.",),
P("C16", "The close error is the first cause, set before the close is visible, and stays",
  "The close error is nil while a stream is open. Once the closed channel or the frame channel is closed, the error is the one that ended the stream first: user closed, submission channel closed, the context's error, or the transport's own error; later causes never change it.",
  ["schedules", "fault_sequences"], "all orders of causes of all kinds, with later causes of other kinds",
  "tests see one cause at a time",
  ["stream.go"], [("once-only close", "stream.go: FrameStream.close, GetCloseErr, closeWhenDone")],
  "history monitor for first-cause and stability under virtual time", MON + "Causes are kept apart in virtual time so that 'first' is unambiguous."),
P("C17", "The logger sees exactly what was read and written, in order",
  "A stream with a logger reports to it each frame it is about to deliver, once, with the frame's bytes, in delivery order and before the consumer gets it, and each frame written successfully, once, in write order and after the write; failed writes are not reported. A logger's errors change nothing about the traffic, and at the end at most one frame reported as read was not delivered.",
  ["histories", "schedules", "fault_sequences"], "all duplex histories, logger failures and delays, write failures and closes",
  "no test uses a logger",
  ["stream.go"], [("log calls", "stream.go: ReadContext, WriteContext")],
  "offline checker over recorded read/log/deliver and write/log event logs", MON),
P("C18", "Text fields hold what was set, cut to fit, and nothing of earlier values",
  "Setting a text field stores the string's bytes, zero-filled to the field's size, whatever was there before, and leaves all other fields alone; a string that is too long is cut to the field's size and reported with the value-too-long error. Reading gives the bytes up to the first zero byte, or the whole field, and survives the trip through a frame; the text-length and truncation helpers agree with the same rules on any bytes.",
  ["inputs", "histories"], "all text fields, strings (with NULs, multi-byte, exact and over-long) and histories of sets",
  "tests set one string on fresh messages; stale tails need a longer value first",
  ["*/ (message files with char fields)", "util/util.go"], [("setters and getters", "*/: Message.Set*, Get*"), ("helpers", "util: CStrLen, TruncateV2")],
  "model-based monitoring of set/get histories for all text fields", MON),
P("C19", "Extension messages carry their payload through V1, V2 and streams",
  "A V2 extension message with a payload of 0 to 249 bytes, framed, received through a stream and decoded, gives back the same network, system, component and type fields and payload (V2 drops trailing zero bytes), with a payload length that is never beyond the payload; a longer payload is cut and reported with the value-too-long error. Decoding any frame with that message ID, of any length, leaves the payload length within 0..249.",
  ["inputs", "histories"], "all payload lengths 0..255, contents, versions; reused message objects",
  "one test sets a payload; the variable-length logic has separate paths per length and version",
  ["common/v2_extension.go", "common/dialect.go"], [("variable payload", "common/v2_extension.go: SetPayload, GetPayload, Read, Write")],
  "model-based monitoring over every payload length", MON),
P("C20", "The checksum is X.25, and corrupted frames are never accepted",
  "The checksum of any bytes, however they are split over writes, with intermediate sums and resets, is the X.25 (CRC-16/MCRF4XX) checksum. A valid frame in which one to three bits, or a burst of at most 16 bits within the bytes up to the end of the payload, were flipped behind the length and flags is accepted neither by validation nor by a stream.",
  ["inputs", "fault_sequences"], "all byte strings and splits; all frames and all 1-3 bit flips and short bursts behind the length byte and flags (message ID bytes aside)",
  "a test hashes two constants; the guarantee is over all frames and error patterns",
  ["x25.go", "dialect.go"], [("crc", "x25.go: X25CRC.Write, Sum, Reset"), ("comparison", "dialect.go: Validate")],
  "differential monitoring against a bitwise CRC; fault injection of bit flips and bursts",
  MON + "Flips of the message ID select another CRC_EXTRA and length table, so they are outside the guarantee; a stream may find another valid frame inside a damaged one."),
P("C21", "The UDP transport answers the peer it heard first, datagram for datagram",
  "On the UDP transport, a write before any datagram was read fails with the no-address error and sends nothing; a read returns one datagram's bytes (cut to the buffer); every write afterwards is one datagram with those bytes to the address the first datagram read came from, and to no other, whoever sends later. Closing ends a blocked read with an error and frees the port, and reads and writes may run at the same time.",
  ["histories", "schedules"], "all histories of datagrams from several peers, reads of any size, writes and close",
  "the tests open a socket; which peer is answered depends on the history",
  ["util/udpreadwritecloser.go"], [("peer latch", "util: UDPReadWriteCloser.Read, Write, Close")],
  "model-based monitoring of random histories on real loopback sockets", MON + "Loopback UDP is taken to be lossless and ordered for the small volumes in flight; a real loss is inconclusive."),
P("C22", "Concurrent use of a stream, dialects and frames is free of data races",
  "Reading state and channels of a stream, closing it, submitting and consuming frames may happen from any number of goroutines while its loops run, and dialects, frames and messages may be shared between goroutines that only read them, validate, decode and build; none of this is a data race.",
  ["schedules", "histories"], "all interleavings of the API's concurrent use with running loops",
  "the tests are single-threaded and not run under the race detector",
  ["stream.go", "dialect.go", "*/dialect.go", "*/ (message files)"], [("close error lock", "stream.go: GetCloseErr, close"), ("read-only tables", "*/dialect.go")],
  "Go race detector (ThreadSanitizer) over a stress workload on real threads", MON + "The race detector sees the accesses that the run performs; happens-before based, so one occurrence suffices."),
P("C23", "Frame accessors follow the documented layout for every header, flag and length",
  "For every complete V1 or V2 frame, every accessor (version, length, sequence, system, component, message ID, flags, payload, checksum, checksum input, whole bytes, signature) gives exactly the bytes that the MAVLink layout puts there; the signature exists if and only if the incompatibility flag for signing is set, and is the 13 bytes behind the checksum. A frame made without a copy from a buffer that goes on behind it gives the same, apart from its whole bytes.",
  ["inputs"], "all complete frames: any header byte, flags, ID, payload length 0..255, signature",
  "tests use one or two frames with small values",
  ["frame.go"], [("accessors", "frame.go: FrameV1, FrameV2 methods")],
  "differential monitoring of accessors against a reference layout", MON),
P("C24", "Reading and writing do not hold each other up",
  "When one direction of a stream cannot go on (the consumer does not take frames, the transport has nothing to read, a transport write or a logger call hangs, nothing is submitted), the other direction still does everything it can, and asking for the closed channel, the close error and the frame channels still returns, even while the transport's Close hangs.",
  ["schedules", "fault_sequences"], "all ways to block one direction, with any traffic in the other",
  "no test runs both directions",
  ["stream.go"], [("separate loops", "stream.go: ReadContext, WriteContext")],
  "bounded-progress monitor at quiescence under virtual time", MON + "Liveness is restated as: at quiescence nothing possible is left undone."),
P("C25", "Printed messages and frames show every field with its value",
  "The text of a message has one line for each field in the order of its definition, base fields first and then its extension fields if the message is marked as holding them, with the field's name and its value, and the message's name; the text of a frame shows version, length, IDs, checksum and, for V2, its flags, whether it is signed, and its signature. Printing never fails and changes nothing.",
  ["inputs", "programs"], "all message types, field values, and frames",
  "no test prints messages; each generated file has its own format",
  ["*/ (message files)", "frame.go", "message.go"], [("String methods", "*/: Message.String; frame.go: String")],
  "monitor parses the text and compares it with the fields", MON),
P("C26", "Each kind of rejected frame is reported once",
  "A stream prints one line on standard output for the first rejected candidate of each combination of version, message ID, system and component, naming these four values, and prints nothing else.",
  ["histories", "inputs"], "all histories of valid and rejected candidates",
  "no test observes the notices",
  ["stream.go"], [("notice", "stream.go: readFrame, invalidLogged")],
  "output monitor: recorded notices against the scan's rejected candidates", MON),
P("C27", "Messages sent through one stream arrive at the other end, equal and in order",
  "When two streams with the same dialects are connected, the messages built and submitted at one end arrive at the other, each once, in order and with equal fields, in both directions at the same time, whatever the wire does to segmentation; noise between frames costs none of them beyond what the scan of the received bytes says; and over the UDP transport the same holds as far as datagrams arrive.",
  ["inputs", "schedules", "histories", "configurations"], "all duplex conversations of any messages over in-memory and UDP wires",
  "tests check each part alone on samples",
  ["stream.go", "dialect.go", "util/udpreadwritecloser.go", "*/ (message files)"], [("whole path", "stream.go, dialect.go, */")],
  "end-to-end conservation and equality checker over duplex conversations", MON),
P("C28", "Streams do not affect each other",
  "Any number of streams running at the same time in one process, sharing dialects but not transports, each deliver and write exactly what they would alone.",
  ["schedules", "configurations"], "all sets of concurrent streams, shared dialects, modes and traffic",
  "tests run one stream at a time; shared tables or buffers show only under concurrency",
  ["stream.go", "dialect.go", "*/dialect.go"], [("per-stream state", "stream.go: FrameStream")],
  "isolation monitor comparing concurrent streams with their solo models, in a race-detector build", MON),
P("C29", "Every shipped package builds, and the monitor program shows what arrives",
  "Every package of the module compiles. The monitor program, while it runs, logs the message of each valid frame that arrives on its UDP port, once and in order, and nothing for what is not valid, and stays up whatever arrives.",
  ["inputs", "programs", "histories"], "all packages; all datagram histories sent to the monitor",
  "the build script leaves two packages out, and nothing runs the program",
  ["cmd/main.go", "uAvionix/dialect.go", "util/udpreadwritecloser.go"], [("main loop", "cmd/main.go: main")],
  "build of all packages and black-box output monitoring of the running program", MON + "Messages are sent in lockstep, so that no datagram is lost."),
P("C30", "Named constants have the values that the protocol gives them",
  "Every named constant of every package (the enumeration values of the dialects, the frame start markers and the signature flag) exists and has the number that its definition in the protocol gives it, so that a peer understands by it what the sender meant.",
  ["programs"], "all 2389 named constants of ten packages",
  "no test mentions an enumeration value; one wrong number turns one command into another",
  ["*/enums.go", "stream.go"], [("enumerations", "*/enums.go"), ("markers", "stream.go: V1StartByte, V2StartByte, CompatibilityFlagSignature")],
  "exhaustive probing of the built packages against golden values, also as seen in command frames", MON + "The golden values are transcribed from the pinned tree; there is no second source for them offline."),
P("C31", "Long work neither piles up nor gets slower",
  "However long a stream reads (frames of any contents, rejected frames of kinds already reported, noise) or writes, however often it is asked for its channels and its state, however many streams are opened and closed, and however many frames and messages are built, decoded, validated and printed or datagrams exchanged with however many peers, the library holds on to no more memory or goroutines than after a little of the same, and a unit of work takes no more processor time than at first. What grows is only the record of the kinds of rejected frames that were reported.",
  ["histories"], "all long histories of reading, writing, opening, closing, coding",
  "tests end after a few frames; what piles up shows after many",
  ["stream.go", "dialect.go", "frame.go", "util/udpreadwritecloser.go", "*/ (message files)"], [("frame buffer", "stream.go: readFrame"), ("helpers end with the stream", "stream.go: closeWhenDone")],
  "resource monitor: live heap, objects, goroutines and processor time before and after ten times the work", MON + "Growth is judged beyond a small allowance and confirmed twice."),
P("C32", "Frames relayed from stream to stream pass unchanged",
  "A frame received from one stream can be submitted, as it is, to any number of others at the same time, also while it is decoded, validated and printed, and each writes exactly the bytes that were received (signature, flags, sequence, sender and untrimmed payload included), once and in order, so that whatever a chain or tree of routers passes on arrives at its ends as it was sent.",
  ["inputs", "configurations", "schedules"], "all trees of routers, with any frames and wires",
  "no test joins streams, or submits one frame twice",
  ["stream.go", "frame.go"], [("frame bytes", "stream.go: WriteContext, readFrame; frame.go: Bytes, FrameFromBytes")],
  "conservation and byte-equality checker at every wire of running router trees", MON),
]

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            a["observe_at"] = p["observe"] or ["public API"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                     "technique": p["technique"], "level": "exploration", "level_note": p["note"].strip(),
                     "evidence_file": "evidence/%s.json" % p["id"]} for p in PROPS],
         "not_applicable": [],
         "notes": "No hooks are needed in /repo: every monitor observes the public API, the transport, the logger, standard output or the running program. Known and fixed findings: known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
