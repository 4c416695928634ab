#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place where the property texts are kept."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

I, S, H, F, C, CR = "inputs", "schedules", "histories", "fault_sequences", "configurations", "crash_points"

p("C01", "Basic headers round-trip for every format and chunk stream id",
  "For every format 0-3 and every chunk stream id from 2 to 65599, writing a basic header emits the format in the top two bits of the first byte and the id in one byte (ids below 64), two bytes (64-319: id minus 64) or three bytes (320-65599: six one-bits, then id minus 64, big-endian). Reading those bytes consumes exactly them and restores the same format and id.",
  [I], "all formats x all chunk stream ids 2..65599, and all first bytes on the read side",
  "The tests try four ids and one format; the boundaries 63/64, 319/320 and 65599 and the other formats are not tried.",
  ["chunk/basic_header.go", "spec/bytes.go", "spec/binary.go"],
  [("six-bit marker selects the one, two or three byte form", "chunk/basic_header.go: (*BasicHeader).Read, (*BasicHeader).Write")],
  observe=["bytes written to the io.Writer", "bytes consumed from the io.Reader and the fields afterwards"])
p("C02", "Message headers have the protocol's layout in every format",
  "A message header is 11, 7, 3 or 0 bytes for formats 0, 1, 2 and 3: 24-bit big-endian timestamp, 24-bit big-endian length, one type byte, 32-bit little-endian message stream id, cut off after the fields that the format carries. Reading yields exactly those values, says for formats 1 and 2 (and only those) that the timestamp is a delta, leaves the fields that the format does not carry as they were, and rejects any other format with an error; writing emits exactly those bytes.",
  [I], "all formats and all field values (24-bit timestamp and length, 8-bit type, 32-bit stream id)",
  "The tests write and read one header per format.",
  ["chunk/message_header.go", "spec/binary.go"],
  [("per-format branches of the codec", "chunk/message_header.go: (*MessageHeader).Read, (*MessageHeader).Write")],
  observe=["bytes written and consumed", "fields after a read"])
p("C03", "A chunk header is read and written as one consistent unit",
  "A whole header is the basic header, the message header in the format which the basic header announces, and a 32-bit big-endian extended timestamp exactly when the 24-bit timestamp field is 0xFFFFFF. Reading consumes exactly what writing emits and restores the same values, and both stop with the error of the first part that fails.",
  [I, F], "all headers (formats 0-2 with any field values, format 3), any failing read or write",
  "One header without extended timestamp is read in the tests.",
  ["chunk/header.go", "chunk/extended_timestamp.go", "chunk/message_header.go"],
  [("delegation to the three component codecs in order", "chunk/header.go: (*Header).Read, (*Header).Write")],
  observe=["bytes written and consumed", "fields after a read", "returned error"])
p("C04", "Compressed headers are completed from their own chunk stream only",
  "A header that omits fields is completed from the most recent header received on the same chunk stream, and from no other: format 1 takes over the message stream id, format 2 also the length and the type, format 3 the whole message header. Fields which a header carries itself are never altered, and a format 0 header is passed on as it was, as is every header by the normalizer that does nothing. The normalizer hands out the header it completed last, overall and for each chunk stream.",
  [H, I], "all sequences of headers over any number of chunk streams",
  "The tests use one chunk stream, and one compressed header after one full header.",
  ["chunk/default_normalizer.go", "chunk/normalizer.go", "chunk/default_reader.go"],
  [("per-stream table of the last complete header", "chunk/default_normalizer.go: (*DefaultNormalizer).Normalize")],
  state=[("headers", "last completed header per chunk stream id", "chunk/default_normalizer.go")],
  observe=["the header returned", "the headers returned for later chunks"])
p("C05", "Interleaved messages are reassembled exactly",
  "The payload of a message delivered by a chunk reader is the concatenation, in order of arrival, of the payload bytes of that chunk stream's chunks since its previous message, and its header is the (completed) header of the first of them. It is delivered once, when and only when as many bytes as its header announces have arrived, and chunks of other chunk streams in between neither contribute to it nor disturb it. Each chunk takes from the input exactly its header and the smaller of the bytes its message still lacks and the current chunk size.",
  [H, I], "all interleavings of chunks of any number of streams, all lengths and chunk sizes",
  "The tests interleave two 8-byte messages once.",
  ["chunk/default_reader.go", "chunk/builder.go", "chunk/reader.go"],
  [("one builder per chunk stream, removed when complete", "chunk/default_reader.go: (*DefaultReader).Recv"),
   ("remaining-bytes count", "chunk/builder.go")],
  state=[("builders", "partial message per chunk stream", "chunk/default_reader.go")],
  observe=["chunks delivered", "bytes consumed from the source"])
p("C06", "A received Set Chunk Size applies to the bytes that follow it, once",
  "When a complete message of type 1 with a valid payload (four bytes or more, big-endian value from 1 to 0x7FFFFFFF) has been read, the reader uses that value as its chunk size from the next chunk on and does not deliver the message. No other message changes the chunk size or is withheld, and a malformed size leaves the chunk size as it was. A size that the application sets is the one in force.",
  [H, I], "all messages in all states of the reader",
  "No test sends a Set Chunk Size message to a reader.",
  ["chunk/default_reader.go"],
  [("interception of type 1 messages", "chunk/default_reader.go: updateChunkSize, Recv")],
  state=[("readSize", "current chunk size for reading", "chunk/default_reader.go")],
  observe=["ReadSize()", "chunks delivered", "number of payload bytes taken per chunk"])
p("C07", "Outgoing messages are split into chunks exactly as the peer expects",
  "Writing a message emits its header, then its payload in order without loss or repetition, in pieces of exactly the current chunk size except for the last which is not longer, with a format 3 header for the same chunk stream (and the extended timestamp, if the message has one) between two pieces and nowhere else. The bytes of one message reach the destination in a single write, whose error is returned. The chunk size in force is the one set last.",
  [I, F], "all headers, payload lengths and positive chunk sizes",
  "The tests write one 8-byte message with chunk sizes 8 and 4, on one-byte chunk stream ids, to a writer that never fails.",
  ["chunk/default_writer.go", "chunk/header.go"],
  [("loop over the payload with a continuation header", "chunk/default_writer.go: (*DefaultWriter).Write")],
  observe=["bytes written to the destination", "returned error"])
p("C08", "Messages built by the library have truthful headers",
  "Every message which the library itself builds from a control sequence, a response, a status or a data frame announces exactly the number of payload bytes it carries and has a full (format 0) header with the chunk stream, message stream and type that the protocol assigns: 2/0/the sequence's own type for control sequences, 3/0/0x14 for responses, 5/1/0x14 for statuses, 4/1/0x12 for data frames. The payload is the encoding of the values that the message stands for: the control sequence's own body, the name _result, the transaction id and the values of a response, the name onStatus and the values of a status, the values of a data frame. When the payload cannot be encoded the error is returned and no message is built.",
  [I], "all contents of the messages, all encoding errors",
  "The tests compare one message per kind, and those outside the control package cannot be built here.",
  ["control/default_chunker.go", "cmd/conn/default_chunker.go", "cmd/stream/status.go", "cmd/data/data_frame.go"],
  [("header literals with Length computed from the encoded payload", "control/default_chunker.go, cmd/conn/default_chunker.go, cmd/stream/status.go, cmd/data/data_frame.go")],
  observe=["the chunk returned"])
p("C09", "Control sequence bodies round-trip",
  "Every control sequence writes the body that the protocol defines for it and reads back the same values: one 32-bit big-endian number (chunk size, which is capped at 0xFFFFFF when used or written; abort stream id; acknowledged bytes; window size), the window size and one limit-type byte, or a 16-bit big-endian event type and the rest of the payload as event body. A body that is too short is an error. The named event and limit types have the numbers of the protocol.",
  [I], "all values and all body lengths",
  "The tests use one value per control sequence; none has two different bytes in all positions.",
  ["control/control_set_chunk_size.go", "control/control_abort_message.go", "control/control_acknowledgement.go", "control/control_event.go", "control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go", "spec/binary.go"],
  [("Read and Write of each control sequence", "control/control_*.go")],
  observe=["bytes written", "accessors after a read", "returned error"])
p("C10", "Control messages are decoded by their type id, independently",
  "Type ids 1 to 6 decode to set chunk size, abort, acknowledgement, user control event, window acknowledgement size and set peer bandwidth, from the payload of that message alone; every other type id yields an unknown-type error that names it. Each message decodes into an object of its own, never one that an earlier message was decoded into, and a body that fails to decode yields its error.",
  [I, H], "all type ids 0-255, all sequences of messages",
  "The tests parse one message of a known type and one of an unknown type.",
  ["control/default_parser.go", "control/control.go"],
  [("type table keyed by type id, instantiated by reflection", "control/default_parser.go: NewParser, Parse")],
  observe=["object and error returned"])
p("C11", "The handshake follows its dialogue and stops at the first error",
  "A server handshake reads the client's version byte and only then writes its own, then reads the client's first packet, writes its own first packet and its acknowledgement, and then reads the client's acknowledgement, after which it writes nothing. Any step that fails ends the handshake with that step's error before anything more is read or written, and success is reported only after all steps. The same holds for a dialogue of the caller's own sequences: each is read, then written, then asked for the next.",
  [F, I], "all positions at which reading, writing or checking can fail",
  "The tests drive mocked single steps; no test runs the whole handshake.",
  ["handshake/handshaker.go", "handshake/sequence.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go"],
  [("linked sequence of read/write steps", "handshake/handshaker.go: (*Handshaker).Handshake")],
  observe=["order of reads and writes on the connection", "returned error"])
p("C12", "The handshake accepts exactly the right version and challenge answer",
  "The handshake is accepted exactly when the client's version is 3 and all 1528 challenge bytes of its acknowledgement equal those the server sent. The server's challenge is filled from the system's secure random source anew for each handshake, and the server's acknowledgement carries the client's timestamp and all of the client's challenge bytes.",
  [I], "all version bytes, all challenge and acknowledgement contents",
  "The tests compare all-zero or fully different payloads, and cannot see where randomness comes from.",
  ["handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go"],
  [("version comparison", "handshake/version_sequence.go: Read"), ("challenge generation and echo", "handshake/client_ack_sequence.go"), ("challenge comparison", "handshake/server_ack_sequence.go: Read")],
  observe=["returned error", "bytes written"])
p("C13", "Handshake packets are 1536 bytes and round-trip",
  "A handshake packet is written as its two timestamps, 32-bit big-endian, in order, and its 1528 challenge bytes, and nothing else. Reading consumes exactly these 1536 bytes and restores all three fields.",
  [I], "all packet contents",
  "The tests use one packet with a mostly constant payload.",
  ["handshake/packet_ack.go"],
  [("field by field codec", "handshake/packet_ack.go: Read, Write")],
  observe=["bytes written and consumed", "fields after a read"])
p("C14", "Decoding does not depend on how the bytes arrive",
  "What is decoded from a connection depends only on the sequence of bytes, never on how reads split it: a read that returns fewer bytes than asked for, or none without an error, is never taken for a complete field. This holds for the handshake, chunk headers, payloads and control bodies, whether or not the source offers byte-wise reading.",
  [F, I], "all ways of fragmenting the input",
  "The tests read from in-memory buffers which always return everything at once.",
  ["spec/bytes.go", "handshake/version_sequence.go", "handshake/packet_ack.go", "chunk/builder.go", "control/control_event.go"],
  [("io.ReadFull and binary.Read for every field", "spec/bytes.go: ReadBytes, ReadByte")],
  observe=["values decoded", "bytes consumed"])
p("C15", "Truncated input and failed writes are always reported",
  "When the input ends or fails before everything that the operation needs has been read, the operation returns a non-nil error (or, for the chunk reader, sends one to its error channel) and delivers nothing made of missing bytes. When a write to the destination fails, the operation that caused it returns a non-nil error.",
  [F, CR], "all positions at which input can end or a write can fail, for every encoder and decoder",
  "The tests let a handful of reads and one write fail.",
  ["chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/header.go", "chunk/builder.go", "chunk/default_reader.go", "chunk/default_writer.go", "handshake/packet_ack.go", "control/control_event.go", "spec/bytes.go"],
  [("every error of a read or write is returned", "all Read and Write methods")],
  observe=["returned errors", "error channels"])
p("C16", "Service loops give every item exactly one outcome and carry on",
  "Each item that a running stream takes in (a received message, or a message to be sent) leads to exactly one outcome: it is passed on decoded, or written to the peer, or exactly one error is reported for it. After an error the stream goes on serving the following items.",
  [H, F], "all sequences of good and bad items in either direction",
  "The tests pass one item through each loop and then stop looking.",
  ["control/stream.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "chunk/default_reader.go", "chunk/parser.go"],
  [("select loop with continue after each reported error", "control/stream.go: Recv; cmd/conn/net_conn.go: Listen; cmd/stream/net_stream.go: Listen; cmd/data/stream.go: Recv")],
  observe=["channels of results and errors", "calls of the chunk writer"])
p("C17", "Chunks reach the stream that was asked for their chunk stream id",
  "A received chunk is sent to the stream registered for its chunk stream id, which is created when there is none, and to no other; errors of the reader are passed on. Asking for one id always returns the same stream; asking for several different ones returns a stream fed by all of them, or an error with no stream created when one of them exists already; asking for none is an error. A combined stream passes on every chunk of its members unchanged, and is closed by its close operation only after all of them have ended.",
  [H, I, S], "all sets of ids, all orders of requests and chunks",
  "The tests ask for a few ids and pass one or two chunks.",
  ["chunk/parser.go", "chunk/multi_stream.go", "chunk/stream.go"],
  [("table of streams by id", "chunk/parser.go: Stream, Recv"), ("fan-in goroutines", "chunk/multi_stream.go: Append, AwaitClose")],
  state=[("streams", "chunk stream id to stream", "chunk/parser.go")],
  observe=["channels of the streams", "errors returned"])
p("C18", "Mutable state shared between goroutines is consistently locked",
  "Every field of the chunk builder, normalizer, reader, writer and parser that is written after construction is read and written only while one same mutex is held, unless only the receiving loop uses it. So chunk size changes, header completion, message assembly and stream lookup are free of data races between the owner's methods and the receiving goroutine.",
  [S], "all schedules of concurrent method calls",
  "The tests do not run methods concurrently, and a race detector sees only what they do.",
  ["chunk/builder.go", "chunk/default_normalizer.go", "chunk/default_reader.go", "chunk/default_writer.go", "chunk/parser.go"],
  [("mutex fields pmu, lmu, hmu, bmu, rmu, wmu, smu", "chunk/*.go")],
  observe=["accesses of fields with the set of locks held"])
p("C19", "Locks are released on every path and never held while blocking",
  "Every operation that takes a lock has released it on each way out, and never takes a lock that it already holds or releases one that it does not hold. While a lock is held there is no channel operation, no waiting and no reading from or writing to the network, and no two locks are taken in opposite orders.",
  [S, F], "all paths through all exported operations, including error paths",
  "A lock that is leaked on an error path shows up only when the path is followed by another operation.",
  ["chunk/builder.go", "chunk/default_normalizer.go", "chunk/default_reader.go", "chunk/default_writer.go", "chunk/parser.go"],
  [("lock with deferred unlock", "chunk/*.go")],
  observe=["locks held at returns, calls and channel operations"])
p("C20", "Closing ends the loop and closes each of its outputs once",
  "A running stream, reader, parser or dispatcher leaves its loop when, and only when, it is told to close, without handling another item. Streams and the parser then close each channel on which they deliver results or errors exactly once, and a parser also closes its reader and every chunk stream that was asked for or has come up; nothing is sent on a channel after it is closed. Closing a parser returns after all this is done.",
  [S, H], "all states in which close can be called",
  "The tests close a parser once and never look whether loops end.",
  ["chunk/parser.go", "chunk/default_reader.go", "control/stream.go", "cmd/manager.go", "cmd/data/stream.go", "cmd/stream/net_stream.go", "cmd/conn/net_conn.go"],
  [("closer channel in every select", "Close and Recv, Listen or Dispatch of each type")],
  observe=["channels closed", "goroutine returned"])
p("C21", "The end of an input channel is not taken for a message",
  "When the channel that feeds a control, command, data or dispatch loop is closed, the loop neither crashes nor delivers, dispatches or reports anything for it; it goes on without noticing it again, and can still be closed.",
  [S, H], "all moments at which the input can end",
  "No test closes an input channel of a loop.",
  ["control/stream.go", "cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "chunk/multi_stream.go"],
  [("second result of the receive", "Recv, Listen and Dispatch loops")],
  observe=["results and errors sent after the end of input"])
p("C22", "Closing a chunk reader or parser never waits for a receiver",
  "Whatever a chunk reader or chunk parser is about to deliver, a message or an error, its delivery is abandoned when it is told to close. Closing therefore does not depend on anybody still receiving from it, and a parser that closes its reader does not deadlock with it.",
  [S], "all states of reader and parser at the time of the close",
  "The tests close a parser with a mocked reader that has nothing to deliver.",
  ["chunk/default_reader.go", "chunk/parser.go"],
  [("deliveries selected against the closer channel", "chunk/default_reader.go: Recv; chunk/parser.go: Recv")],
  observe=["blocking channel operations"])
p("C23", "No input from a peer makes the library panic",
  "Whatever bytes a peer sends, in the handshake, in chunk headers, message payloads or control messages, decoding them ends in a result or an error and never in a panic from an index, a slice bound, a nil pointer, a failed type assertion or a negative size.",
  [I, H], "all byte strings sent by a peer",
  "The tests send well-formed messages.",
  ["chunk/default_reader.go", "chunk/builder.go", "chunk/basic_header.go", "chunk/message_header.go", "control/default_parser.go", "handshake/packet_ack.go", "spec/binary.go", "cmd/data/data.go"],
  [("length checks before indexing", "all decoders")],
  observe=["panicking instructions reachable from the decoders"])
p("C24", "Memory set aside for announced data is bounded",
  "For a message announced by a peer, the library never allocates more at once, beyond the bytes that have already arrived, than those which the message still lacks and than the current chunk size, so a header alone costs no more than 16 MiB. Fixed-size fields are read into buffers whose size does not depend on the input.",
  [I], "all announced lengths and chunk sizes",
  "The tests announce 8 bytes.",
  ["chunk/builder.go", "chunk/default_reader.go", "spec/bytes.go"],
  [("read limited to the smaller of bytes left and chunk size", "chunk/default_reader.go: Recv")],
  observe=["sizes of allocations on decoding paths"])
p("C25", "Incoming chunks are routed to exactly the right service",
  "Chunks on chunk stream 3, and on 8 with message stream 0, go to the connection service; command messages (type 0x14) on chunk stream 4, and on 8 with message stream 1, go to the stream service; audio, video and data frames (types 8, 9, 0x12) on chunk stream 4 go to the data service. No chunk goes to a service whose condition it does not meet. A union of conditions is met where all of its parts are, and an any-of where at least one is; without parts, neither is met by any chunk.",
  [I], "all chunk stream ids, message stream ids and type ids",
  "The tests use stub conditions, and this package cannot be built here.",
  ["cmd/gate.go", "cmd/manager.go"],
  [("gate predicates and their combination", "cmd/gate.go"), ("table of gated channels", "cmd/manager.go: New, Dispatch")],
  observe=["channel on which a chunk is passed on"])
p("C26", "Commands and data frames are recognised by name or type id",
  "Each command name and each data type id known to the library decodes into a fresh object of the kind that belongs to it, with the pointers that decoding fills in (the metadata of connect and createStream, the arguments of a data frame) set up; an unknown one is an error, as is a body that fails to decode. For connections these are connect, createStream, releaseStream, FCPublish and getStreamLength; for streams play, play2, deleteStream, receiveAudio, receiveVideo, publish, seek and pause; for data types 8, 9 and 0x12. A data stream that has been given another parser uses that one.",
  [I, H], "all names and type ids",
  "The tests decode a few of the commands, and these packages cannot be built here.",
  ["cmd/conn/default_parser.go", "cmd/stream/default_parser.go", "cmd/data/default_parser.go"],
  [("tables of factories", "DefaultParser of each package")],
  observe=["object and error returned"])
p("C27", "Audio and video frames are carried verbatim and described correctly",
  "A received audio or video frame keeps its payload: control byte first, the rest as frame data, and sending it again yields the same header and the same bytes; an empty payload is an error. Codec and type of a frame, and the sound rate and size of audio, are those that the control byte encodes.",
  [I], "all payloads and control bytes",
  "The tests use one control byte per property.",
  ["cmd/data/data.go", "cmd/data/audio.go", "cmd/data/video.go"],
  [("bit fields of the control byte", "cmd/data/audio.go, cmd/data/video.go"), ("stored chunk", "cmd/data/data.go")],
  observe=["accessor results", "chunk returned by Marshal"])
p("C28", "Delivered and sent payloads are never overwritten by the library",
  "The payload of a delivered message, and of a message built by the library, is memory that nothing in the library writes to afterwards: not for a later chunk, not for another message, and not for a buffer shared between messages.",
  [H, S], "all later operations after the delivery",
  "A test that reads one message does not keep it while others arrive.",
  ["chunk/builder.go", "chunk/default_reader.go", "control/default_chunker.go", "cmd/stream/status.go"],
  [("fresh buffer for each read and each build", "chunk/builder.go: Read, Build")],
  observe=["memory reachable from a delivered chunk"])
p("C29", "The server turns each connection into one client until it is closed",
  "Each accepted connection is delivered as exactly one client that owns that connection, and each failed accept is reported as exactly one error, after which accepting goes on. Once the listener reports that it has been closed, accepting ends, without further clients or errors. New listens on the given TCP address, and reports when it cannot.",
  [H, F], "all sequences of accepted connections, errors and the close",
  "The test accepts one connection, and this package cannot be built here.",
  ["server/server.go"],
  [("accept loop", "server/server.go: Accept")],
  observe=["client and error channels", "termination of the loop"])
p("C30", "A client wires its connection to the right services in the right order",
  "A client reads and writes only the connection it was given; the messages of chunk stream 2 go to its control service and those of chunk streams 3, 4, 5 and 8 to its command services. No chunk is read before the handshake has succeeded, and a failed handshake is reported and starts nothing. Until another size has been announced, messages are read and written in chunks of the protocol's initial 128 bytes.",
  [H, F], "all outcomes of the handshake, all chunk streams",
  "The test only constructs a client, and this package cannot be built here.",
  ["client/client.go"],
  [("construction of parser, control stream and manager", "client/client.go: New, Handshake")],
  observe=["registered chunk streams", "goroutines started"])
p("C34", "A dispatcher starts and closes the services that it manages",
  "A dispatcher that is run with managing of its children starts each of the loops of its net connection, net stream and data stream exactly once before it handles the first chunk, and closes each of them exactly once when it has been told to close. One that is run without starts and closes none of them.",
  [H, S], "all histories of chunks, the end of the input and closing",
  "The tests run a dispatcher over a few chunks and never look at its children.",
  ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"],
  [("start and deferred cleanup of the children", "cmd/manager.go: Dispatch, startChildren, cleanupChildren")],
  observe=["goroutines started", "close signals sent to the services"])
p("C35", "A builder keeps its parts in order and knows how many bytes it lacks",
  "A new builder lacks as many bytes as its header announces. Adding bytes puts them behind those that it has, lowers what it lacks by their number, and returns that number, with ErrTooManyBytes exactly if more were added than were lacking; reading into it takes exactly the given number of bytes from the source and adds them, or returns the source's error and adds nothing. Building returns a chunk with the builder's header and all its bytes in the order in which they were added, and changes nothing.",
  [I, H, F], "all sequences of additions of any length, and all failures of the source",
  "The tests add one or two parts of a few bytes.",
  ["chunk/builder.go"],
  [("list of parts and count of bytes left", "chunk/builder.go: Append, Read, AddLeft, Build")],
  state=[("left", "bytes that the message still lacks", "chunk/builder.go")],
  observe=["BytesLeft", "the built chunk's data", "results of Append and Read"])
p("C36", "Connections are independent of each other",
  "Whatever is read, written or served on one connection has no influence on any other: no operation, loop or decoder changes anything that is set up when the program starts (package-level variables, the tables and parsers behind them, or what they lead to), which is all that readers, writers, parsers, streams and clients made for different connections have in common.",
  [I, S, H], "all operations of all packages with any arguments, in any order and concurrency",
  "The tests serve one connection at a time, and each makes its own objects.",
  ["chunk/", "control/", "handshake/", "cmd/", "client/client.go", "server/server.go"],
  [("package-level tables and default parsers", "control/control.go: Controls; cmd/conn, cmd/data, cmd/stream: DefaultParser; cmd/gate.go: gates"),
   ("constructors that make every other object anew", "chunk.NewReader, chunk.NewNormalizer, chunk.NewParser, cmd.New, client.New")],
  observe=["content of everything that package-level variables lead to"])
p("C37", "Messages are not changed by those who handle them",
  "Handling a message never changes it: writing it, routing it, deciding on it, parsing it, or reading a frame from it leaves its header, its payload and the memory behind the payload as they are, even temporarily, and a message that has been handed on is not changed by what is received later. So a message may be written again, to several peers, or by several goroutines at the same time.",
  [I, S, H], "all messages with any header and payload, all operations and loops that meet them, in any order and concurrency",
  "The tests handle each message once, and look at what comes out instead of what is left.",
  ["chunk/", "control/", "cmd/", "client/client.go"],
  [("working copies of headers", "chunk/header.go: (*Header).Write; chunk/default_writer.go: (*DefaultWriter).Write"),
   ("frames that read from a payload", "cmd/data/audio.go, cmd/data/video.go, cmd/data/data_frame.go: Read; control/: Read")],
  observe=["header and payload of a message after the operation", "access to them by another goroutine meanwhile"])
p("C31", "AMF0 bodies of commands and data frames round-trip",
  "Every command, response, status and data frame body that the library encodes decodes to the same values.",
  [I], "all AMF0 values in all commands",
  "The AMF0 codec is an external module which is not available, so none of these tests can even be built.",
  ["cmd/conn/marshallable.go", "cmd/stream/stream_commands.go", "cmd/data/data_frame.go"],
  [("external encoding package", "github.com/WatchBeam/amf0/encoding")])
p("C32", "Every received message is eventually delivered",
  "As long as the peer sends and the application receives, every complete message is eventually delivered, and no stream starves another.",
  [S, H], "all fair schedules",
  "Eventual delivery is a property of infinite histories.",
  ["chunk/parser.go", "chunk/default_reader.go", "chunk/multi_stream.go", "cmd/manager.go"],
  [("unbuffered channels between goroutines", "all service loops")])
p("C33", "Acknowledgement windows and bandwidth limits are honoured",
  "The library acknowledges received bytes in time for the window that the peer announced, and limits what it sends to the bandwidth that the peer allows.",
  [H], "all histories of bytes received and sent",
  "No test measures it.",
  ["control/control_window_ack_size.go", "control/control_set_peer_bandwidth.go", "control/control_acknowledgement.go"],
  [("left to the application: the library only decodes the messages", "control/")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
