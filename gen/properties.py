#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe or [], hook_needed=None)))
F="go/internal/frames/"
prop("C01","24-bit length integers are lossless and range-checked",
 "Every value 0..2^24-1 converted to the 3-byte big-endian integer and read back (from the value, from its bytes, or from the front of a longer buffer) is the same number, and the bytes are most-significant first. A value above 2^24-1 is refused with the 'exceeds maximum' error and never produces a silently truncated success.",
 ["inputs"],"all 2^32 arguments, all 2^24 encodings, all buffers of at least 3 bytes",
 "Three tests sample a few values; the statement is for the whole 32-bit domain.",
 ["go/internal/u24/u24.go"],[("NewUint24","go/internal/u24/u24.go"),("AsInt/ReadUint24ToInt","go/internal/u24/u24.go")])
prop("C02","Frame headers carry stream id, type and flags losslessly",
 "For every 31-bit stream id, 6-bit frame type and 10-bit flag set, the 6-byte header built for them (as a value or written into a buffer) reads back exactly that id, type and flags, in network byte order with the id first; parsing a header from bytes and reading its bytes back is the identity on the first six bytes. A flag test answers true exactly when every bit of the asked-for flag is set.",
 ["inputs"],"all stream ids < 2^31, types < 64, flags < 1024; all byte buffers of at least 6 bytes",
 "No test covers the header at all; the interaction of the 6/10 bit split is only visible for particular type/flag pairs.",
 [F+"frame_header.go",F+"types.go"],[("NewFrameHeader/ResetFrameHeader",F+"frame_header.go"),("StreamID/Type/Flag",F+"frame_header.go")])
prop("C03","Every frame kind survives encode then decode",
 "For each frame kind (cancel, error, request-n, payload and the four request kinds) any frame whose fields fit the wire format, once encoded and then decoded from those bytes, yields a frame equal in every field the format carries: stream id, type, error code and text, requested count, initial count for stream and channel requests, metadata, data, and the follows, complete and next markers.",
 ["inputs"],"all stream ids < 2^31, all metadata shorter than 2^24 bytes, all data of any length, all marker combinations",
 "Existing tests never encode or decode a frame; losses depend on combinations such as empty metadata with a marker set.",
 [F+"payload.go",F+"request_payload.go",F+"error.go",F+"request_n.go",F+"cancel.go"],
 [("Encode/Decode per frame kind",F+"*.go")])
prop("C04","A frame encodes into exactly its announced size",
 "For every frame, encoding into a buffer of at least the announced size succeeds, leaves every byte past the announced size and every byte of the frame's own fields untouched, and determines every byte within the announced size; the announced size is 6 plus the kind's fixed fields, plus 3 and the metadata when there is metadata, plus the data.",
 ["inputs"],"all frames with metadata+data small enough for a 32-bit size; all buffers at least that long with arbitrary prior contents",
 "No test encodes into a larger, dirty buffer or checks sizes for each kind.",
 [F+"payload.go",F+"request_payload.go",F+"error.go",F+"request_n.go",F+"cancel.go"],
 [("Size/Encode",F+"*.go")],observe=["bytes handed to the transport"])
prop("C05","Decoding a malformed frame reports an error, never crashes",
 "Decoding any byte sequence as the body of any frame kind terminates without a panic: bodies too short for their fixed fields, or whose metadata length exceeds what is left, are refused with an error; an accepted body's metadata and data are exactly the corresponding pieces of the input, and the input is not modified.",
 ["inputs"],"all headers and all byte slices of every length",
 "Tests decode nothing; malformed input from a peer is unbounded.",
 [F+"payload.go",F+"request_payload.go",F+"error.go",F+"request_n.go"],
 [("Decode",F+"*.go")])
prop("C06","Fragmentation is lossless, bounded and terminates",
 "Fragmenting a payload or request frame into a given maximum frame size (large enough for a header and at least one byte of content) terminates; concatenating the fragments' metadata and data, in order, gives exactly the original metadata and data; no fragment's encoded size exceeds the maximum; every fragment carries the original stream id (and, for a request, the first fragment its type and initial count); exactly the fragments before the last are marked as followed, and complete/next appear only on the last fragment, with the original complete marker. A frame that already fits is not fragmented.",
 ["inputs"],"all metadata/data lengths and contents, all maximum sizes, all markers",
 "Two tests use one size (1033) with 1 MiB of metadata and data; boundaries where metadata ends exactly at a fragment edge, or data fits with metadata, are not sampled.",
 [F+"payload.go",F+"request_payload.go",F+"util.go"],[("Fragment",F+"payload.go"),("splitPayloads",F+"util.go")])
prop("C07","Stream id generation: parity, range, order and wrap signal",
 "Client-side ids are odd and server-side ids are even and never zero; successive ids are 31-bit values that advance by two (wrapping around within the 31-bit range; a server skips zero) and do not repeat until the whole 31-bit range of that parity has been handed out, and the first-loop indicator is true exactly while no id has been reused. Every call returns in a bounded number of steps.",
 ["histories","inputs"],"all generator states (all histories of calls)",
 "Tests draw a handful of ids from a fresh generator; the wrap needs 2^30 calls.",
 ["go/internal/socket/stream_id.go"],[("ServerStreamIDs.Next/ClientStreamIDs.Next","go/internal/socket/stream_id.go")])
M="go/msgpack/"
prop("C08","Every typed MessagePack value round-trips",
 "Any value written with the encoder's writer for its type (nil, bool, signed and unsigned integers of every width, float32, float64, time, string, byte string, array and map header, and the nillable variants) is read back identical by the decoder's reader for that type, floats and times bit for bit to the precision stored, and the reader then stands exactly at the end of what was written.",
 ["inputs"],"all values of each type, all lengths up to the format's limit, any surrounding buffer contents",
 "Tests cover one echo struct and one value per integer width.",
 [M+"encoder.go",M+"decoder.go",M+"data_reader.go"],[("WriteX/ReadX",M+"encoder.go, decoder.go")])
prop("C09","MessagePack sizing equals encoding",
 "For every value, the number of bytes the sizer accounts is exactly the number of bytes the encoder emits for the same call, for every writer including nillable and dynamic ones; so a buffer of the sized length is filled exactly and encoding into it never reports a range error.",
 ["inputs"],"all values of every supported type, including dynamically typed nested ones",
 "Only whole-struct echo is tested; off-by-ones sit on exact length-class boundaries (31/32, 255/256, 65535/65536).",
 [M+"sizer.go",M+"encoder.go",M+"codec.go"],[("Sizer","go/msgpack/sizer.go"),("Encoder",M+"encoder.go"),("ToBytes",M+"codec.go")])
prop("C10","Narrow MessagePack reads never truncate",
 "Reading a number into an integer type returns exactly the encoded number or an error, never success with a different number. A signed reader accepts a number encoded in any of the signed formats (fixint included) that fits its type; an unsigned reader accepts any unsigned format, and any signed format holding a non-negative number, that fits its type; everything else is an error.",
 ["inputs"],"all encodings of all integers, all target widths and signedness",
 "Eight tests each try one out-of-range value per width, not the format x width matrix or negative-into-unsigned for every format.",
 [M+"decoder.go"],[("ReadInt8..64/ReadUint8..64",M+"decoder.go")])
prop("C11","MessagePack decoding of arbitrary bytes is memory-safe and total",
 "Every typed read, header read, skip and nil test on any byte sequence at any position returns without a panic, never reads outside the given buffer, never moves backwards or past the end, and on truncated or wrong-typed input reports an error (the string reader deliberately also accepts the array prefixes as lengths); after a range error every later operation also reports an error. Exhausting the stack or memory with deeply nested input is outside this statement.",
 ["inputs","histories"],"all buffers (under 4 GiB), all positions, every reader operation, before and after earlier failures",
 "Tests only decode well-formed data produced by the encoder.",
 [M+"decoder.go",M+"data_reader.go"],[("checkBufferSize",M+"data_reader.go"),("getSize/Skip",M+"decoder.go")])
prop("C12","MessagePack encoding never writes outside its buffer",
 "Every writer applied to any buffer at any position writes only bytes from the current position on, within the buffer, without a panic; if the value does not fit, an error is latched, nothing past the end is touched, and every later write is refused and leaves the buffer unchanged.",
 ["inputs","histories"],"all values, all buffer lengths and positions, before and after an earlier failure",
 "No test encodes into a short buffer.",
 [M+"encoder.go",M+"data_reader.go"],[("checkBufferSize",M+"data_reader.go")])
prop("C13","Skip and nil test consume exactly one value",
 "Skipping advances the decoder past exactly one complete well-formed value of any supported format (nested arrays and maps included) and no further; testing for nil consumes the nil marker if and only if the next value is nil; a truncated value makes the skip report an error.",
 ["inputs"],"all encodings of all formats, all nesting shapes",
 "Skip is never tested.",
 [M+"decoder.go"],[("Skip/getSize/IsNextNil",M+"decoder.go")])
prop("C14","Dynamic MessagePack values encode as one value and read back equal",
 "A dynamically typed value of any supported scalar, string, byte-string or time type is encoded as exactly one MessagePack value of the sized length, and reading it dynamically yields an equal value (integers as an equal number in the integer type of the format it was written in, times as the same instant); nil is one nil marker and reads back as nil.",
 ["inputs"],"all supported dynamic types and values",
 "ReadAny/WriteAny are not covered by the range tests.",
 [M+"encoder.go",M+"sizer.go",M+"decoder.go"],[("WriteAny/ReadAny",M+"encoder.go, sizer.go, decoder.go")])
prop("C15","Operation tables survive serialisation",
 "Serialising any operation table and parsing the bytes yields the same operations in the same order, with equal index, type, direction, namespace and name, for names up to 65535 bytes; the serialised form starts with the magic and version and its length is exactly that of its content.",
 ["inputs"],"all tables: any number of operations, any names, types, directions, indexes",
 "No tests exist for the table.",
 ["go/operations/operatons.go"],[("Table.ToBytes/FromBytes","go/operations/operatons.go")])
prop("C16","Parsing an operation table from arbitrary bytes never crashes",
 "Parsing any byte sequence as an operation table returns either a table or an error and never panics: truncated input, wrong magic, unknown version and lengths pointing past the end are errors, and reserved bytes are skipped in full.",
 ["inputs"],"all byte sequences",
 "No tests; input comes from an untrusted wasm module.",
 ["go/operations/operatons.go"],[("FromBytes","go/operations/operatons.go")])
prop("C17","Port messages survive encode then decode",
 "A port message (port name up to 65535 bytes, data, complete and next markers) encoded to bytes and decoded yields the same name, data and both markers independently; the encoding is exactly 3 bytes plus name plus data; decoding a truncated message is an error, not a crash.",
 ["inputs"],"all names, data and marker combinations; all byte sequences for decode",
 "No tests exist.",
 ["go/invoke/portio.go"],[("PortIO.Encode/Decode","go/invoke/portio.go")])
prop("C18","The stream lookup behaves as a map keyed by stream id",
 "After any sequence of additions and removals of streams with distinct ids, looking up an id finds the stream added under it if it has been added and not since removed, and nothing otherwise; removing an unknown id changes nothing, and removing one stream never affects another, whichever position it was added in.",
 ["histories"],"all sequences of add/remove/lookup, all ids",
 "The lookup has no tests; failures need removal at the head or tail followed by further operations.",
 ["go/proxy/lookup.go"],[("Add/Get/Remove/find","go/proxy/lookup.go")])
prop("C19","Handler registries return what was registered",
 "An exported operation's handler is returned for exactly the id it was registered under, in registration order, separately per interaction type, and its info is listed at that id; importing the same namespace and operation again returns the same id, importing a new one gets the next id and never another operation's; ids out of range yield no handler.",
 ["histories","inputs"],"all registration histories, all names, all ids",
 "The registries have no tests.",
 ["go/invoke/handlers.go"],[("ExportX/GetXHandler/ImportX","go/invoke/handlers.go")])
prop("C20","Per-connection handler tables: set then get, any index",
 "On a connection, host instance or guest handler table, setting a handler at any index (growing the table as needed) makes exactly that index return it, keeps every other index's handler, and indexes never set return none.",
 ["histories","inputs"],"all table sizes, indexes and handlers",
 "No tests.",
 ["go/handler/handler.go","go/transport/wasmrs/host/instance.go"],[("SetXHandler/getXHandler","go/handler/handler.go, go/transport/wasmrs/host/instance.go")])
prop("C21","A mono signals at most one terminal outcome",
 "For any sequence of success, error and cancel signals from a source, a subscriber receives at most one of success or error, its finally callback and each registered notification run exactly once and with the matching signal, and the value or error kept for later retrieval is that of the first signal; mapping a mono delivers the converted value, or the conversion error, or the original error, exactly once.",
 ["histories","inputs"],"all sequences of signals, from every subscriber state; all values and errors",
 "There are no tests for mono.",
 ["go/rx/mono/mono.go","go/rx/mono/processor.go"],[("subscriber.Success/Error/Cancel","go/rx/mono/mono.go")])
prop("C22","A flux delivers nothing after its terminal signal",
 "For any sequence of next, complete, error and cancel signals, a subscriber receives values in order, then at most one of complete or error, and nothing after completion, error or cancellation; finally runs at most once with the matching signal, and mapping a flux converts each value in order and turns a conversion failure into one error.",
 ["histories","inputs"],"all sequences of signals from every subscriber state",
 "There are no tests for flux.",
 ["go/rx/flux/flux.go","go/rx/flux/processor.go"],[("subscriber","go/rx/flux/flux.go")])
prop("C23","UUID text and binary forms round-trip; malformed text is refused",
 "Formatting any UUID (plain or URN) and parsing it, as string or bytes, gives the same UUID; text accepted by the parser is one of the four documented forms (plain, urn, braced, 32 hex digits), denotes exactly the returned value whatever the letter case, and parsing as string and as bytes agree; anything else is an error and never a panic; binary form is exactly the 16 bytes.",
 ["inputs"],"all 2^128 UUIDs; all strings of every length",
 "No uuid tests are in the stable set.",
 ["go/types/uuid/uuid.go","go/types/uuid/util.go","go/types/uuid/marshal.go"],[("Parse/ParseBytes/encodeHex/xtob","go/types/uuid/")])
prop("C24","Random UUIDs are version 4, variant RFC 4122",
 "Every UUID generated from random bytes, pooled or not, reports version 4 and the RFC 4122 variant and keeps the other 122 bits of its random source; consecutive pooled UUIDs use disjoint random bytes; a failing source yields the zero UUID and the error. Version and variant accessors classify every UUID by the RFC's bit patterns.",
 ["inputs","histories"],"all 16-byte random sources, all pool positions",
 "No uuid tests are in the stable set.",
 ["go/types/uuid/version4.go","go/types/uuid/uuid.go"],[("NewRandomFromReader/newRandomFromPool","go/types/uuid/version4.go"),("Variant/Version","go/types/uuid/uuid.go")])
prop("C25","The RSocket splitter cuts the stream at exact frame boundaries",
 "Given any buffered prefix of the byte stream, the splitter yields exactly the first 3-byte-length-prefixed frame when it is complete, asks for more data when it is not, and rejects a zero length; it never consumes or yields bytes beyond that frame and never panics.",
 ["inputs"],"all buffer contents and lengths, with and without end of stream",
 "No transport tests exist.",
 ["go/transport/rsocket/decoder.go"],[("doSplit","go/transport/rsocket/decoder.go")])
prop("C26","The unbounded buffer is a FIFO that refuses input once disposed",
 "Values put into the buffer come out of its channel in insertion order, each exactly once, when the reader loads after each receive; a put is accepted exactly while the buffer is not disposed; disposing keeps what was already accepted readable and then closes the channel, once, with no panic however often dispose and load are repeated.",
 ["histories"],"all sequences of put, receive, load and dispose, for any element values (one operation at a time)",
 "Two tests use a short fixed sequence.",
 ["go/internal/buffer/unbounded.go"],[("Put/Load/Dispose","go/internal/buffer/unbounded.go")])
prop("C27","Frames crossing the guest boundary are delimited exactly",
 "The bytes a guest hands to its host in one send are split at the 3-byte length prefixes into exactly the frames the guest wrote, in order, none with bytes of another; a frame handed to the guest is preceded by its exact length and never overruns the agreed buffer.",
 ["inputs"],"all frame sequences and sizes, all buffer positions",
 "No test runs the boundary code, which needs a wasm module.",
 ["go/transport/wasmrs/host/instance.go","go/transport/wasmrs/guest/guest.go"],[("hostSend/sendLoop","go/transport/wasmrs/host/instance.go"),("GuestSend/doSendFrame","go/transport/wasmrs/guest/guest.go")])
prop("C28","Incoming frames reach only the stream they name",
 "A payload, error, cancel or request-n frame is delivered only to the registered stream with its stream id, with its data, metadata and markers unchanged; next delivers a value, complete and error end the stream and unregister it; a frame for an unknown stream delivers nothing, and is reported as an error unless it is a request-n.",
 ["inputs","histories"],"all frames, all sets of registered streams",
 "The handler has no tests.",
 ["go/handler/handler.go","go/proxy/lookup.go"],[("HandleFrame","go/handler/handler.go")])
prop("C29","Requests are answered on their own stream, by the addressed handler",
 "A request whose metadata names a registered operation invokes exactly that operation's handler, with the request's data, and every frame sent in answer (values, completion, error text, not-found, invalid metadata) carries the request's stream id; metadata shorter than 8 bytes or an unknown operation is answered with exactly one error frame and no handler runs.",
 ["inputs"],"all stream ids, metadata, data and handler outcomes",
 "The handler has no tests.",
 ["go/handler/handler.go"],[("handleRequestResponse...","go/handler/handler.go"),("checkMetadata","go/handler/handler.go")])
prop("C30","Outgoing calls put the right frames on the wire",
 "Subscribing to an outgoing request-response registers its stream and sends exactly its request frame; the first demand of an outgoing stream sends its request frame with that demand as the initial count, each later demand sends a request-n with exactly that count until the stream completes, cancelling sends a cancel, and every such frame carries the request's stream id.",
 ["histories","inputs"],"all sequences of demand, cancel and completion; all counts and ids",
 "The proxy package has no tests.",
 ["go/proxy/flux.go","go/proxy/mono.go","go/handler/caller.go"],[("streamFlux.Request/Cancel","go/proxy/flux.go"),("streamMono.Subscribe","go/proxy/mono.go")])
prop("C31","Live instance handles resolve to the instance they were issued for",
 "A handle obtained by storing an instance yields exactly that instance until it is removed and nothing afterwards; an unknown handle yields nothing and is never dereferenced, and removing one handle never affects another.",
 ["histories"],"all sequences of put/get/remove, all handles",
 "No tests.",
 ["go/invoke/instances.go"],[("Put/Get/Remove","go/invoke/instances.go")])
prop("C32","Numeric, string and nillable conversions preserve the value or its absence",
 "Converting between a defined type and its base (numbers, strings, booleans, byte strings and their nillable forms, with or without an attached error) preserves the value exactly, passes the error through, and maps absence to absence without a crash.",
 ["inputs"],"all values, present or absent, with and without error",
 "The conversion helpers have no tests.",
 ["go/msgpack/convert/convert.go"],[("Numeric/Nillable*","go/msgpack/convert/convert.go")])
prop("C33","Payload transforms invert their encodings",
 "For each scalar payload transform (bool, integers, floats, string, bytes), encoding a value to a payload and decoding that payload returns the value, and decoding malformed data is an error, not a crash.",
 ["inputs"],"all values of each scalar type, all malformed payloads",
 "The transform package has no tests.",
 ["go/transform/transform.go","go/msgpack/codec.go"],[("transform.X Encode/Decode","go/transform/transform.go")])
prop("C34","Imports are linked to an export of the same namespace and operation",
 "After loading any set of modules in any order, every import for which some loaded module exports the same namespace and operation is linked to that export with the exporter's index, and every other import stays pending; a later export satisfies pending imports, and none is lost.",
 ["histories","configurations"],"all module sets, load orders and operation tables",
 "No mesh tests.",
 ["go/transport/wasmrs/mesh/mesh.go"],[("linkOperations/linkOperation","go/transport/wasmrs/mesh/mesh.go")])
prop("C35","Concurrent use of the stream registry and rx pipelines is race-free",
 "Under any interleaving of frames arriving, handlers running and callers subscribing on one connection, stream registration, lookup and removal and rx signal delivery behave as if executed one at a time.",
 ["schedules"],"all interleavings of the goroutines a connection starts",
 "Tests are sequential and the race detector only sees executed schedules.",
 ["go/proxy/lookup.go","go/rx/flux/flux.go","go/handler/handler.go"],[("Lookup.mu","go/proxy/lookup.go")])
prop("C36","Every request eventually terminates",
 "Every request sent on a healthy connection eventually produces a value, completion, or error at the caller, or is cancelled by it; no request is left waiting for ever.",
 ["schedules","fault_sequences"],"all schedules and peer behaviours",
 "Liveness over unbounded executions.",
 ["go/handler/handler.go","go/transport/wasmrs/host/instance.go"],[("sendLoop/recvLoop","go/transport/wasmrs/host/instance.go")])
prop("C37","The Rust runtime speaks the same wire format as the Go runtime",
 "The Rust frame, header and operation-list codecs encode to and decode from the same bytes as the Go ones, for every frame and table.",
 ["inputs"],"all frames and operation lists",
 "Rust is tested only against a few golden files, and only one direction.",
 ["rust/crates/wasmrs/src/frames/mod.rs","rust/crates/wasmrs/src/operations.rs","rust/crates/wasmrs/src/util.rs"],[("encode/decode","rust/crates/wasmrs/src/")])
prop("C38","Generated code matches the interface definition",
 "For every valid Apex specification the generator emits code that compiles and whose encoders, decoders and registrations agree with the specification's types and operations.",
 ["programs"],"all specifications",
 "Only a fixed expected-output directory exists.",
 ["codegen/src"],[("visitors","codegen/src")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
