import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Messages written by the chunk writer are read back exactly",
 "Every sequence of messages written through the library's chunk writer is delivered by the library's chunk reader exactly once, in the order written, with the same chunk stream, timestamp (including an extended one), type, message stream and payload bytes. This holds for every payload length, every representable chunk stream id, every chunk size of at least one that both ends share, and across chunk-size changes announced on the wire between messages.",
 ["inputs","histories"],"all message sequences x payload lengths (0..16 MiB) x chunk stream ids (2..62, 64..65599) x header formats x chunk sizes, including sizes that change between messages",
 "The tests write one or two 8-byte messages on streams 18/19 with chunk sizes 4 and 128: no stream id above 63, no extended timestamp in a multi-chunk message, no size change, no compressed header.",
 ["chunk/default_writer.go","chunk/default_reader.go","chunk/header.go","chunk/basic_header.go","chunk/message_header.go","chunk/extended_timestamp.go","chunk/builder.go","chunk/default_normalizer.go"],
 [("splitting into chunks of the write size with continuation headers","chunk/default_writer.go Write"),("reassembly per chunk stream","chunk/default_reader.go Recv, chunk/builder.go")],
 ["bytes handed to the destination writer","chunks received from the reader"],
 [("builders","partially received message per chunk stream","chunk/default_reader.go")])
p("C02","Any conforming sender's chunk stream is reassembled exactly",
 "For every byte stream a conforming RTMP sender can produce - any legal choice of header compression (formats 0 to 3), any interleaving of chunks of messages on different chunk streams, any chunk-size announcements - the reader delivers exactly the messages sent, each once, in the order in which they complete. A field a compressed header omits has the value it had in the preceding header of the same chunk stream, and no message's bytes or fields leak into another's. A delivered message belongs to its consumer: changing it changes nothing about later ones. A message builder always knows how many bytes are missing and reports an error when given more than that.",
 ["inputs","histories"],"all message sets x interleavings x legal header-format choices x chunk sizes x basic-header forms",
 "One test interleaves two two-chunk messages with format 0/3 headers and the no-op normalizer; formats 1 and 2 with several chunk streams, omitted types, and extended timestamps on continuation chunks are never decoded.",
 ["chunk/default_reader.go","chunk/default_normalizer.go","chunk/normalizer.go","chunk/builder.go","chunk/header.go"],
 [("header normalisation from remembered headers","chunk/default_normalizer.go Normalize"),("per-stream builders and byte accounting","chunk/default_reader.go builder/removeBuilder, chunk/builder.go")],
 ["chunks received from the reader"],
 [("headers","last complete header per chunk stream","chunk/default_normalizer.go"),("left","payload bytes still missing from a message","chunk/builder.go")])
p("C03","Emitted byte streams conform to the RTMP chunk format",
 "The bytes the chunk writer emits for any message sequence decode, under an independent strict RTMP chunk decoder, to exactly those messages: every chunk carries the chunk stream id of its message, continuation chunks use format 3 and repeat an extended timestamp, and no chunk's payload exceeds the write size in force when the message was written. Writing never alters the message that was passed in.",
 ["inputs","histories"],"all message sequences x chunk stream ids x timestamps x write sizes and write-size changes",
 "The writer tests compare two 8-byte messages on stream 18 to bytes produced by the same header code, so a mistake in continuation headers for wide stream ids or extended timestamps is invisible.",
 ["chunk/default_writer.go","chunk/header.go","chunk/basic_header.go","chunk/message_header.go","chunk/extended_timestamp.go","spec/binary.go"],
 [("continuation headers and splitting","chunk/default_writer.go Write"),("header serialisation","chunk/*_header.go Write")],
 ["bytes handed to the destination writer"])
p("C04","Chunk headers encode and decode exactly and are self-delimiting",
 "Encoding any representable chunk header and decoding it gives back the same field values, consumes exactly the bytes that were produced, and agrees with the RTMP layout (big-endian 24-bit fields, little-endian message stream id, extended timestamp present exactly when the timestamp field is 0xffffff). Decoding a header cut short anywhere, or encoding into a destination that fails, reports an error instead of success.",
 ["inputs","fault_sequences"],"all formats x chunk stream ids x 24/32-bit field values x trailing data x truncation points x write-failure points",
 "A handful of fixed headers are tested and the errors of truncated reads and failed writes are never looked at.",
 ["chunk/basic_header.go","chunk/message_header.go","chunk/extended_timestamp.go","chunk/header.go","spec/binary.go","spec/bytes.go"],
 [("field codecs","spec/binary.go"),("form selection by stream id / format","chunk/basic_header.go, chunk/message_header.go")],
 ["Header/BasicHeader/MessageHeader/ExtendedTimestamp Read and Write"])
p("C05","Chunk-size announcements take effect at exactly the next chunk",
 "After a peer's set-chunk-size message with any legal value completes, every later chunk on every chunk stream - including the rest of messages already partly received - is read with the new size and no earlier chunk is; the reader reports the new size, and the announcement itself is not delivered as a message. A size set locally on an idle reader behaves the same way, and a malformed announcement (payload too short) neither crashes the reader nor changes the size nor disturbs later messages.",
 ["inputs","histories"],"all histories of messages, partial messages, announcements (1..2^31-1), local size changes and malformed announcements",
 "The read size is only ever set and read back; no test sends a set-chunk-size message.",
 ["chunk/default_reader.go","chunk/reader.go"],
 [("applying type-1 messages to the read size","chunk/default_reader.go updateChunkSize"),("bounded reads","chunk/default_reader.go Recv")],
 ["chunks received from the reader","ReadSize"],[("readSize","maximum payload bytes of one chunk","chunk/default_reader.go")])
p("C06","Arbitrary input bytes never crash or corrupt decoding",
 "Whatever bytes a peer sends, the chunk reader, the control-message parser, the media parser, the command parsers and the handshake neither panic nor hang nor fabricate data: every delivered message has exactly the payload length its header announces and its payload bytes come from the input. Messages completed before the first malformed byte are delivered exactly as without it.",
 ["inputs"],"all byte strings: uniformly random, grammar-mutated valid streams, truncated and spliced streams",
 "The tests feed well-formed input plus empty buffers only.",
 ["chunk/default_reader.go","chunk/builder.go","chunk/header.go","control/default_parser.go","cmd/data/default_parser.go","cmd/conn/default_parser.go","cmd/stream/default_parser.go","handshake/handshaker.go"],
 [("length checks via full reads","spec/bytes.go ReadBytes"),("type lookup before decoding","control/default_parser.go Parse")],
 ["chunks and errors received from the reader","parser results"])
p("C07","Decoding does not depend on how the transport splits the bytes",
 "Delivering the same bytes in any segmentation - one byte at a time, split anywhere, reads that return no bytes, a last read that returns data together with end-of-file - yields the same chunks, control messages and handshake outcome as delivering them at once. Nothing beyond the last byte that belongs to a decoded unit is consumed by the handshake.",
 ["inputs","schedules"],"all byte streams x all segmentations allowed by the io.Reader contract",
 "Every test reads from an in-memory buffer that returns all requested bytes at once.",
 ["spec/bytes.go","chunk/default_reader.go","chunk/builder.go","handshake/version_sequence.go","handshake/packet_ack.go","control/control.go"],
 [("full reads of every field","spec/bytes.go, chunk/builder.go Read, handshake/packet_ack.go Read")],
 ["decoded chunks, controls, handshake result and bytes consumed"])
p("C08","Each message reaches exactly its own chunk stream's subscriber, in order",
 "However chunk streams are subscribed (singly, in groups, before or after their first message) and however consumers are scheduled, every message is delivered exactly once, to the subscriber of its chunk stream, in arrival order per chunk stream, and every read error is reported exactly once. Subscribing one id twice gives the same stream; asking for a group that contains an already subscribed id fails and leaves all subscriptions as they were; a merged stream ends only after all its sources have ended and everything they carried was delivered.",
 ["histories","schedules"],"all subscription histories x message sequences x consumer schedules x error positions",
 "The parser tests never deliver a message through a subscribed stream, and the merging tests pass one message per source.",
 ["chunk/parser.go","chunk/multi_stream.go","chunk/stream.go"],
 [("routing by chunk stream id","chunk/parser.go Recv"),("subscription table","chunk/parser.go Stream"),("fan-in","chunk/multi_stream.go Append/AwaitClose")],
 ["streams returned by the demultiplexer","its error channel"],[("streams","subscribed chunk streams","chunk/parser.go")])
p("C09","Closing always terminates, releases consumers and never panics",
 "Closing a chunk reader, demultiplexer, control stream, net connection, net stream, data stream or command manager at any point of its history - idle, mid-message, after end of input, after transport errors, after an upstream component was closed - makes its processing loop stop and the close call return, as long as its consumers keep receiving. Channels documented to be closed are closed so that consumers end, nothing panics, and no processing goroutine stays behind once its transport is gone.",
 ["histories","schedules"],"all histories of received messages, errors, sends and close calls of the components in any order and at any point",
 "One test closes a demultiplexer over a mock reader; closing after end of input, with messages pending or downstream of a closed component is never exercised.",
 ["chunk/default_reader.go","chunk/parser.go","control/stream.go","cmd/manager.go","cmd/conn/net_conn.go","cmd/stream/net_stream.go","cmd/data/stream.go"],
 [("closer channels","chunk/default_reader.go, chunk/parser.go, control/stream.go, cmd/**"),("closing of child channels","chunk/parser.go Recv")],
 ["return of Close and of the loop goroutines","closed channels"])
p("C10","The handshake succeeds exactly for the correct exchange",
 "A server-side handshake succeeds if and only if the peer sends the supported version, a complete challenge and a final packet that echoes the server's random data; it then has sent version, its own challenge and an exact echo of the peer's time and random data, and has consumed exactly the handshake's 3073 bytes. Any other version, any differing echoed byte, input ending early or an I/O failure at any point yields an error and stops the exchange there. Every connection's challenge is fresh random data throughout.",
 ["inputs","fault_sequences"],"all version bytes x challenge contents x echo corruptions x truncation points x read/write fault points x custom step sequences",
 "Steps are tested one at a time; no test runs the three real steps as one exchange, checks consumption, near-miss echoes or mid-packet failures.",
 ["handshake/handshaker.go","handshake/version_sequence.go","handshake/client_ack_sequence.go","handshake/server_ack_sequence.go","handshake/packet_ack.go"],
 [("step chain","handshake/handshaker.go Handshake"),("challenge comparison","handshake/server_ack_sequence.go Read")],
 ["handshake result","bytes written and consumed"])
p("C11","Control messages keep their meaning through encoding and decoding",
 "Every control message turned into a chunk and parsed back is the same kind of message with the same field values, in the layout RTMP prescribes, on chunk stream 2 and message stream 0 with the right type id and length; an announced chunk size above 0xffffff is sent and reported as 0xffffff. A payload shorter than the message needs is rejected with an error, an unassigned type id is rejected as an unknown type naming that id, and one parse never changes the result of another. An encoding or decoding whose source or destination fails reports that failure.",
 ["inputs"],"all control message kinds x field values x payload truncations and extensions x all 256 type ids x parse sequences",
 "Only decoding of in-range values is tested (the write assertion is never called); limits, short payloads and cross-parse effects are not.",
 ["control/control.go","control/default_parser.go","control/default_chunker.go","control/control_abort_message.go","control/control_acknowledgement.go","control/control_event.go","control/control_set_chunk_size.go","control/control_set_peer_bandwidth.go","control/control_window_ack_size.go"],
 [("type table","control/default_parser.go NewParser"),("per-kind codecs","control/control_*.go")],
 ["chunks produced, controls parsed"])
p("C12","A control stream relays both directions fully, in order, isolating faults",
 "For every interleaving of incoming chunks and outgoing control messages, each valid incoming chunk yields exactly its control message, in order; each outgoing message is written exactly once, in the order it was sent; and each unparsable chunk, unencodable message or failed write yields exactly one error. A fault never loses, duplicates or alters any other message in either direction.",
 ["histories","schedules","fault_sequences"],"all interleavings of valid/invalid incoming chunks, outgoing messages, encoding and write failures",
 "Each test passes a single message in one direction with mocked parser or chunker.",
 ["control/stream.go","control/default_parser.go","control/default_chunker.go"],
 [("select loop","control/stream.go Recv")],
 ["In/Out/Errs channels","bytes written"])
p("C13","Failed writes are reported and concurrent messages never interleave on the wire",
 "Writing a message returns an error exactly when the destination failed to take all of its bytes, wherever in the message the failure happens, and what reached the destination is then a prefix of that message's encoding. Messages written concurrently by several producers to one shared destination each appear contiguously, complete and exactly once, with each producer's messages in its own order.",
 ["fault_sequences","schedules"],"all messages x failure positions (error, short write) x numbers of producers and schedules",
 "The writer tests use one goroutine and a buffer that cannot fail.",
 ["chunk/default_writer.go"],
 [("whole message assembled before one destination write","chunk/default_writer.go Write")],
 ["error result","bytes received by the destination"])
p("C14","The command router delivers each message to exactly the right consumers",
 "A message is routed to the net connection exactly when it arrives on chunk stream 3, or on 8 with message stream 0; to the net stream exactly when it is an AMF0 command (type 0x14) on chunk stream 4, or on 8 with message stream 1; to the data stream exactly when it is audio, video or data (types 8, 9, 0x12) on chunk stream 4; and nowhere otherwise, each consumer seeing its messages once and in order. Combined gates are open exactly when all (respectively any) of one or more sub-gates are open.",
 ["inputs","histories"],"all (chunk stream, message stream, type) triples, all gate trees, all message sequences through the dispatcher",
 "Only single-gate cases and a dispatcher with constant gates are tested; the shipped routing table has no test.",
 ["cmd/gate.go","cmd/manager.go"],
 [("gates","cmd/gate.go"),("dispatch loop","cmd/manager.go Dispatch")],
 ["gate decisions","messages seen by net connection, net stream and data stream"])
p("C15","Media frames keep their payload and report what their control byte says",
 "Parsing an audio, video or data message yields that kind of frame with its control byte and payload verbatim, and turning an audio or video frame back into a message gives an identical one, and a data frame one with the same type and values; what follows a data frame's values is passed over; an audio or video message without a control byte is rejected and an unassigned type is rejected naming it. The codec, sample rate, sample size, channel and frame type reported are those the control byte encodes in the FLV format.",
 ["inputs","histories"],"all control bytes x payloads x headers x types x frame sequences",
 "Tests cover a few control bytes and one payload; round trips are not tested, and two tests even fix wrong values.",
 ["cmd/data/data.go","cmd/data/audio.go","cmd/data/video.go","cmd/data/data_frame.go","cmd/data/default_parser.go","cmd/data/stream.go"],
 [("frame type table","cmd/data/default_parser.go"),("bit fields","cmd/data/audio.go, cmd/data/video.go")],
 ["frames received, messages written"])
p("C16","Net commands decode to what the peer sent and responses carry what was sent",
 "Every supported net-connection and net-stream command, with any argument values, is delivered as that command with exactly those values, in order, whatever optional arguments follow the ones it has; an unknown or malformed command yields exactly one error and does not disturb its neighbours. Every response or status handed over is written once as an AMF0 command message whose name, transaction id and arguments are those given, and producing one response never alters another.",
 ["inputs","histories"],"all commands x argument values x valid/invalid sequences x responses and statuses",
 "Tests decode two commands and encode two fixed responses; sequences, independence and argument ranges are untested.",
 ["cmd/conn/net_conn.go","cmd/conn/default_parser.go","cmd/conn/marshallable.go","cmd/conn/receivable.go","cmd/conn/default_chunker.go","cmd/stream/net_stream.go","cmd/stream/default_parser.go","cmd/stream/status.go","cmd/stream/stream_commands.go"],
 [("command tables","cmd/conn/default_parser.go, cmd/stream/default_parser.go"),("listen loops","cmd/conn/net_conn.go, cmd/stream/net_stream.go")],
 ["In/Out/Status/Errs channels","bytes written"])
p("C17","A client session works end to end",
 "For every session script - handshake, then any interleaving of control messages, commands and media from the peer and of control messages, responses and statuses to the peer - the connection's control, net-connection, net-stream and data consumers together receive exactly what the peer sent, each in order, and the peer, which is told the chunk size the client writes with, decodes exactly what was sent to it. What the peer sent before the input ended is delivered, and a message that the peer did not take is reported as an error by the part that it was handed to. A failed handshake returns an error and starts no message processing.",
 ["histories","schedules"],"all session scripts over the chunk streams the client serves, any segmentation and chunk sizes",
 "The client test only constructs a client; no test connects the layers.",
 ["client/client.go","cmd/manager.go","control/stream.go","chunk/parser.go","handshake/handshaker.go"],
 [("wiring of handshake, demultiplexer, control stream and command manager","client/client.go New/Handshake")],
 ["client accessors' channels","bytes on the connection"])
p("C18","The server hands out each accepted connection exactly once until closed",
 "Every connection made to a listening server yields exactly one client, and that client talks over that connection and no other; a bind failure is reported as an error. After the server is closed no further connection is accepted and its accept loop ends once its outstanding client or error has been taken.",
 ["histories","schedules"],"all histories of connect, receive-client, exchange data, disconnect and close",
 "One test dials once; distinctness, pairing and behaviour after close are not tested.",
 ["server/server.go","rtmp.go"],
 [("accept loop","server/server.go Accept")],
 ["Clients/Errs channels","loopback connections"])
p("C19","Operations documented as safe to share are free of data races",
 "Using a reader, writer, demultiplexer, message builder or control stream from several goroutines at once in the ways its documentation allows - processing messages while another goroutine changes or queries the chunk size, subscribes to streams, appends or queries remaining bytes, sends, receives or closes - is free of data races for every mix of operations, and so is writing one message through several writers at once. Values read concurrently are always values that were set.",
 ["schedules","histories"],"all mixes of concurrent operations on one object",
 "No test uses an object from two goroutines apart from channel hand-offs, and none runs under a race detector.",
 ["chunk/default_reader.go","chunk/default_writer.go","chunk/parser.go","chunk/builder.go","chunk/default_normalizer.go"],
 [("mutex-guarded fields","rmu, wmu, smu, bmu, pmu/lmu, hmu/lmu in chunk/")],
 ["race detector reports over generated operation mixes"])
p("C20","Parts supplied by the user are used exactly as given",
 "What the library lets its user supply is used as it was given. A command or media parser built from a user's factories recognises exactly the names or type ids it was given, fills a fresh value made by the factory for that name or id with the message, rejects every other name or id, and neither affects nor is affected by other parsers, the default ones included. A control stream hands each incoming chunk once, in order, to the parser and each outgoing message to the chunker it was given, and a data stream does so with the parser set on it and its frames' own Marshal; each result is delivered or written once, unchanged and in order, and each error that such a part reports is reported and nothing delivered or written for it. A reader asks the normalizer it was given about each chunk header once and goes by its answer, a demultiplexer relays everything that the reader it was given produces and closes that reader, and a handshake runs exactly the sequences it was given, in order, until one of them fails.",
 ["inputs","histories","fault_sequences"],"all sets of names, type ids and factories x messages; all histories of relays with user-supplied parts whose results and errors are prescribed; all user-supplied normalizers, readers and handshake sequences of the kinds generated",
 "The tests give each constructor one or two parts and one message; several parsers side by side, parts that fail in mid-history, a normalizer that changes what it completes and handshake sequences other than the default ones are never used.",
 ["cmd/conn/default_parser.go","cmd/stream/default_parser.go","cmd/data/default_parser.go","cmd/data/stream.go","control/stream.go","control/default_chunker.go","cmd/conn/default_chunker.go","chunk/default_reader.go","chunk/parser.go","handshake/handshaker.go"],
 [("factory tables","cmd/*/default_parser.go NewParser/Parse"),("parts held by the relays","control/stream.go, cmd/data/stream.go"),("normalizer of a reader, reader of a demultiplexer","chunk/reader.go NewReader, chunk/parser.go NewParser"),("chain of sequences","handshake/handshaker.go Handshake")],
 ["parser results","In/Out/Errs channels","bytes and chunks written","calls of the user's parts"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
try:
    import jsonschema
except ImportError:
    raise SystemExit(0)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    print(x['id'],len(x['title']), x['statement'].count('. ')+1)
