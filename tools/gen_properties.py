#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one readable place; run to regenerate)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    return d

I, H, S, F, C, X = "inputs", "histories", "schedules", "fault_sequences", "configurations", "programs"
PROPS = [
P("C01", "Decoding never panics",
  "Decoding a frame, or a request-header block, from any byte sequence of any length and content returns a value or an error. It never panics, never overflows an arithmetic operation and never reads past the bytes it was given.",
  [I], "every byte string handed to the frame decoder or the header-block decoder",
  "The tests decode a dozen well-formed buffers; the input space is every byte string a peer can send.",
  ["spop/src/data/buf.rs", "spop/src/data/varint.rs", "spop/src/frame/decode.rs", "spop/src/frame/framer.rs", "spoa/src/req.rs"],
  [("length guards in front of every buffer read", "spop/src/data/buf.rs get_bytes, typed_data_type; spop/src/frame/decode.rs get_u8, metadata"), ("bounded variable-length integer decoding", "spop/src/data/varint.rs get")],
  observe=["Framer::read_frame result", "req::hdrs_bin result"]),
P("C02", "Truncated or malformed frames are refused whole",
  "A frame whose header or payload is truncated or malformed is refused with an error. The decoder never returns a frame assembled from the well-formed part of a broken one: every item the payload announces is present in the result, or there is no result. A well-formed frame is not refused for want of bytes it does not need.",
  [I], "every byte string, in particular every truncation and corruption of a valid frame",
  "The tests contain no malformed input at all.",
  ["spop/src/frame/decode.rs", "spop/src/data/buf.rs", "spop/src/data/varint.rs"],
  [("failure of any element decoder propagates to the frame decoder's error return", "spop/src/frame/decode.rs")],
  observe=["frame decoder result"]),
P("C03", "Typed data: writer and reader share SPOP's type table",
  "Every typed value is written with the type id, flag bits and payload layout that SPOP assigns to its kind, and the reader maps each type id and layout back to the same kind with the same payload. Reserved type ids are refused.",
  [I], "every typed value of every kind",
  "The tests pin one value per kind and only small positive integers; sign extension, flag handling and the reserved ids are not sampled.",
  ["spop/src/data/buf.rs", "spop/src/data/ty.rs", "spop/src/data/typed.rs"],
  [("type-id enumeration and the two matches over it", "spop/src/data/ty.rs Type; spop/src/data/buf.rs put_typed, typed_data")],
  observe=["bytes written", "value read"]),
P("C04", "Frame header: type, flags and ids survive the wire",
  "Every frame is written with the type id SPOP assigns to its kind, 4 bytes of flags (FIN set unless it is a fragment, ABORT set when it is aborted), then its stream id and frame id; hello and disconnect frames carry zero ids. The reader maps each type id back to the same kind of frame and fills fragmented/aborted/ids from exactly those header fields.",
  [I], "every frame value and every combination of flags and ids",
  "The tests round-trip one frame per kind with one flag combination each.",
  ["spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/frame/metadata.rs", "spop/src/frame/agent.rs", "spop/src/frame/haproxy.rs", "spop/src/frame/ty.rs"],
  [("header writer and reader", "spop/src/frame/encode.rs frame, metadata; spop/src/frame/decode.rs frame, metadata"), ("flag computation", "spop/src/frame/agent.rs Ack::metadata; spop/src/frame/haproxy.rs Notify::metadata")],
  observe=["bytes written", "frame read"]),
P("C05", "Hello and disconnect items: keys, types and fields agree",
  "Each item of a hello or disconnect frame is written under the key and value type SPOP defines for it, and the reader accepts it with that type and fills the corresponding field from exactly that key. A missing mandatory item is refused with the status code that names it, a missing optional item is read as absent, and the order in which items arrive does not matter.",
  [I], "every hello and disconnect frame, with any subset and order of items",
  "The tests cover one complete hello of each kind in one order; no item is ever missing.",
  ["spop/src/frame/kv.rs", "spop/src/frame/encode.rs", "spop/src/frame/decode.rs"],
  [("predefined keys", "spop/src/frame/kv.rs"), ("item lookup by key", "spop/src/frame/decode.rs KVList")],
  observe=["bytes written", "frame read"]),
P("C06", "Message and action lists: counts and layout agree",
  "Messages are written as name, argument count, then that many named typed arguments; actions as action id, argument count, scope, name and, when setting, the typed value, and the reader reads exactly that layout with exactly those counts. The count written always equals the number of items that follow it, in order, and unknown action ids, wrong argument counts and unknown scopes are refused.",
  [I], "every list of messages and actions",
  "The tests use at most two messages, two arguments and one scope each way.",
  ["spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/action.rs"],
  [("list writers and readers", "spop/src/frame/encode.rs haproxy_notify, agent_ack, action; spop/src/frame/decode.rs message, action")],
  observe=["bytes written", "frame read"]),
P("C07", "Frames that break the header rules are refused",
  "A hello or disconnect frame carrying a non-zero stream id or frame id, a notify or ack frame with frame id zero, and a frame of unknown type are refused with an error and never delivered.",
  [I], "every frame type combined with every stream id and frame id",
  "The tests never present a frame that violates the rules.",
  ["spop/src/frame/decode.rs"],
  [("match guards on the decoded header", "spop/src/frame/decode.rs frame")],
  observe=["frame decoder result"]),
P("C08", "A peer-declared length is bounded before it is used",
  "A frame whose declared length exceeds the configured maximum is refused before any of its body is read and before any memory is reserved for it; a frame of exactly the maximum length is accepted. Memory reserved for a frame, or for an element inside it, never exceeds the configured maximum or the bytes actually present.",
  [I, C], "every declared length and every configured maximum",
  "No test reads a frame through the framing layer.",
  ["spop/src/frame/framer.rs", "spop/src/data/buf.rs"],
  [("length check ahead of the body read", "spop/src/frame/framer.rs Framer::read_frame"), ("remaining-bytes check ahead of each copy", "spop/src/data/buf.rs get_bytes")],
  observe=["read result", "allocation sizes"]),
P("C09", "No frame larger than the maximum frame size is sent",
  "A frame whose encoding exceeds the connection's maximum frame size is never put on the wire, in whole or in part; sending it is refused as too big, and a frame that fits is not refused for its size.",
  [I, C], "every frame and every maximum frame size",
  "No test writes through the framing layer.",
  ["spop/src/frame/framer.rs"],
  [("size check between encoding and writing", "spop/src/frame/framer.rs Framer::write_frame")],
  observe=["bytes on the transport", "write result"]),
P("C10", "Whole frames on the transport, length prefix first",
  "A frame is sent as a 4-byte big-endian length followed by exactly that many bytes, completely, and a send that reports success has handed every byte to the transport and flushed it. A frame is read by taking the 4-byte length and then exactly that many bytes, however the transport splits them, and transport errors are reported as I/O errors.",
  [I, S, F], "every frame, every way the transport splits or fails reads and writes",
  "No test exercises the framing layer; short reads and writes never occur in memory buffers.",
  ["spop/src/frame/framer.rs", "spop/src/frame/codec.rs"],
  [("exact-read / write-all primitives", "spop/src/frame/framer.rs"), ("length back-patched after encoding", "spop/src/frame/framer.rs write_frame")],
  observe=["bytes on the transport", "read/write result"]),
P("C11", "Status codes are SPOP's and survive from decoder to caller",
  "Each error status has the numeric code SPOP assigns to it. An error detected while reading a frame reaches the caller with the status that names its cause: an oversized frame as too big, a transport failure as I/O, a decoding error as exactly the status the decoder found: a malformed frame as invalid, a missing or bad item by the status that names the item.",
  [I, F], "every decoding error and every status",
  "The tests check two status codes and no error path of the framing layer.",
  ["spop/src/error.rs", "spop/src/frame/framer.rs", "spop/src/frame/disconnect.rs"],
  [("status enumeration", "spop/src/error.rs Error"), ("error propagation", "spop/src/frame/framer.rs Framer::read_frame")],
  observe=["Framer::read_frame result", "status code written"]),
P("C12", "Every error is reported to HAProxy before closing",
  "Whenever the agent ends a connection because of an error - a bad frame, a failed handshake, a failed or timed-out service, a reply it cannot send - it first sends one disconnect frame carrying that error's status code and description. The status is found wherever the error carries it. An error that carries no status is reported as unknown, never as normal, and an agent that is shutting down, or that HAProxy disconnects from, sends a normal disconnect.",
  [I, F, H], "every way a connection can fail, at any point of its life",
  "There is no test of the agent crate.",
  ["spoa/src/conn.rs", "spoa/src/error.rs"],
  [("error arm of the connection loop", "spoa/src/conn.rs Connection::serve"), ("error to disconnect conversion", "spoa/src/error.rs From<Error> for Disconnect")],
  observe=["frames written to the connection"]),
P("C13", "Nothing is processed before a successful handshake",
  "The first frame of a connection must be a HAProxy hello; any other first frame is an error. A connection's service is created, and messages are processed, only after the hello negotiated successfully, and a second hello on an established connection is an error, as is every other frame that is neither a notification nor a disconnect of HAProxy.",
  [H, I], "every sequence of frames a peer can send",
  "There is no test of the agent crate.",
  ["spoa/src/state/connect.rs", "spoa/src/state/process.rs", "spoa/src/state/state.rs"],
  [("state enumeration and per-state frame match", "spoa/src/state/")],
  observe=["service calls", "frames written"]),
P("C14", "The negotiated terms are ones both sides offered",
  "A successful handshake answers with the highest version that HAProxy offers and the agent supports, the smaller of the two maximum frame sizes, and only capabilities that both sides announced - all of them. If there is no common version the handshake fails with the unsupported-version status.",
  [I, C], "every hello and every agent configuration",
  "There is no test of the agent crate.",
  ["spoa/src/state/handshake.rs", "spoa/src/state/connect.rs"],
  [("version search, minimum, set intersection", "spoa/src/state/handshake.rs negotiate"), ("reply construction", "spoa/src/state/handshake.rs Negotiated::agent_hello")],
  observe=["agent hello frame"]),
P("C15", "The negotiated frame size limits the connection",
  "After the handshake, the connection refuses to read or send frames larger than the frame size announced in the agent's hello; before it, the agent's configured maximum applies.",
  [H, C], "every connection history and configuration",
  "There is no test of the agent crate.",
  ["spoa/src/conn.rs", "spop/src/frame/codec.rs", "spop/src/frame/framer.rs"],
  [("framer limit set at creation and after the handshake", "spoa/src/conn.rs")],
  observe=["read/write results after the handshake"]),
P("C16", "Each notification gets exactly one ack, with its own ids",
  "When a complete notification has been processed, exactly one ack is sent on the same connection before the next frame is read; it carries that notification's stream id and frame id, is neither a fragment nor aborted, and contains exactly the actions the service returned, in order. No ack is sent for anything else.",
  [H, I], "every sequence of notifications and every service answer",
  "There is no test of the agent crate.",
  ["spoa/src/state/process.rs", "spoa/src/conn.rs", "spop/src/frame/frames.rs"],
  [("ack construction from the notification", "spoa/src/state/process.rs"), ("reply written before the next read", "spoa/src/conn.rs")],
  observe=["frames written to the connection"]),
P("C17", "Partial notifications are never processed",
  "The service only ever receives complete notifications: a non-final fragment is stored without a reply, and the service is called with all the fragments once the final one arrives. If fragmentation was not negotiated on the connection, a fragment is refused with the fragmentation-not-supported status.",
  [H, I], "every sequence of fragments and complete frames, with and without the capability",
  "There is no test of the agent crate.",
  ["spoa/src/state/process.rs", "spoa/src/state/connect.rs"],
  [("optional reassembly table created from the negotiated capability", "spoa/src/state/connect.rs, process.rs")],
  observe=["arguments of service calls", "frames written"]),
P("C18", "Fragments are joined in order, per stream and frame, and released",
  "Reassembly returns nothing for a non-final fragment and, for the final one, the items of all fragments received for that same stream id and frame id, in arrival order, exactly once. Fragments of different streams, frames or connections are never mixed, and nothing is retained for a stream and frame after its final fragment.",
  [H, I], "every interleaving of fragments of any number of streams and frames",
  "No test touches reassembly.",
  ["spop/src/frame/fragment.rs", "spoa/src/state/connect.rs"],
  [("table keyed by stream id and frame id", "spop/src/frame/fragment.rs Table::reassemble"), ("one table per connection", "spoa/src/state/connect.rs")],
  observe=["Reassembly::reassemble results"]),
P("C19", "Processing time is bounded",
  "Every wait for the user's service to process messages, including waiting for it to become ready, is bounded by the configured maximum processing time; when it expires the connection fails with the timeout status. The other errors of a service are reported as unknown errors, never swallowed and never reported as success.",
  [S, F, C], "every service, however slow or failing, and every configured limit",
  "There is no test of the agent crate.",
  ["spoa/src/state/process.rs"],
  [("timeout around the service call", "spoa/src/state/process.rs")],
  observe=["frames written", "time to disconnect"]),
P("C20", "Nothing happens on a connection after its end",
  "After the agent has sent a disconnect frame, answered a health check, or failed to write, it reads no further frame from that connection, calls no service for it and writes nothing more to it. A health check is answered with a hello and no service is created for it.",
  [H, F], "every connection history",
  "There is no test of the agent crate.",
  ["spoa/src/conn.rs", "spoa/src/state/connect.rs"],
  [("terminal state and loop exits", "spoa/src/conn.rs Connection::serve")],
  observe=["reads, writes and service calls"]),
P("C21", "One connection's failure stays its own",
  "An error, disconnect or timeout on one connection never stops the agent or affects any other connection: a connection can only cancel itself, and its outcome is never propagated into the accept loop.",
  [H, F, S], "every mix of failing and healthy connections",
  "There is no test of the agent crate.",
  ["spoa/src/agent.rs", "spoa/src/conn.rs"],
  [("child cancellation token and separate task per connection", "spoa/src/agent.rs Agent::serve")],
  observe=["agent keeps accepting", "other connections keep working"]),
P("C22", "Graceful shutdown waits for every connection",
  "After shutdown is requested the agent accepts no further connection and returns only when every connection it accepted has finished; every connection observes the request. A notification whose processing has begun is not interrupted by shutdown: it is completed and its reply is written.",
  [S, H], "every moment at which shutdown may be requested",
  "There is no test of the agent crate.",
  ["spoa/src/agent.rs", "spoa/src/conn.rs"],
  [("task tracker around every connection task", "spoa/src/agent.rs"), ("cancellation only raced against reading", "spoa/src/conn.rs")],
  observe=["Agent::serve return", "frames written during shutdown"]),
P("C23", "The agent keeps accepting connections",
  "A failed accept, a slow or silent connection, or a slow service never stops the agent from accepting further connections: only a requested shutdown does. Each accepted connection is served on its own task, and the accept loop waits for nothing but the next connection or shutdown.",
  [S, F], "every sequence of accept failures and connection behaviours",
  "There is no test of the agent crate.",
  ["spoa/src/agent.rs"],
  [("accept loop", "spoa/src/agent.rs Agent::serve")],
  observe=["accepted connections"]),
P("C24", "An acker delivers exactly one ack",
  "However an acker is used - completed, aborted, repeatedly or simply dropped - exactly one ack is delivered, with the ids it was created with and every action added before that, in order. It is marked aborted exactly when it was aborted, and completing or aborting it again reports that it is closed.",
  [H, S], "every sequence of operations on an acker",
  "There is no test of the agent crate.",
  ["spoa/src/runtime/acker.rs"],
  [("single-use sender taken out on completion, drop completes", "spoa/src/runtime/acker.rs")],
  observe=["acks received"]),
P("C25", "Pending streams are always woken",
  "A stream of the agent's runtime that reports it has nothing to deliver yet has arranged for the polling task to be woken when something arrives or the sender goes away; it ends exactly when its channel is closed and drained.",
  [S], "every interleaving of polling and sending",
  "There is no test of the agent crate, and a lost wake-up needs a particular schedule.",
  ["spoa/src/runtime/processor.rs"],
  [("poll functions of the message streams", "spoa/src/runtime/processor.rs")],
  observe=["consumer progress"]),
P("C26", "The dispatcher routes every message of a notification once",
  "The first or only frame of a notification creates exactly one new work item with its ids and yields the receiver of its ack; later fragments of the same stream and frame go to that same work item and yield none. Every message is forwarded once, in order, and the route is removed with the final fragment or when the work item could not be queued.",
  [H, F], "every sequence of notifications and fragments",
  "There is no test of the agent crate.",
  ["spoa/src/runtime/dispatch.rs"],
  [("route table keyed by stream id and frame id", "spoa/src/runtime/dispatch.rs Dispatcher::recieve_messages")],
  observe=["work items and messages received"]),
P("C27", "Header blocks decode completely",
  "Decoding a HAProxy header block returns every header it contains up to its terminator, including repeated names, in order, with each length read as a variable-length integer. The pair of empty strings that ends the block ends it and is not refused. A header name or value that is not valid HTTP is reported as an error.",
  [I], "every header block, with any number of repeated names and any lengths",
  "There is no test of the agent crate.",
  ["spoa/src/req.rs"],
  [("pairwise reading loop", "spoa/src/req.rs hdrs_bin")],
  observe=["HeaderMap returned"]),
P("C28", "No blocking or locked suspension in async code",
  "No asynchronous task of the library suspends while holding a thread-blocking lock or a map guard, and none calls a thread-blocking operation. No connection can therefore stall the executor thread that serves the others.",
  [S], "every suspension point of every async function",
  "Deadlocks and stalls need particular schedules; there is no test of the agent crate.",
  ["spoa/src", "spop/src"],
  [("guards scoped inside synchronous functions", "spop/src/frame/fragment.rs, spoa/src/runtime/dispatch.rs"), ("async lock for the service maker", "spoa/src/runtime/runtime.rs")],
  observe=["progress of other connections"]),
P("C29", "The agent only sends agent frames",
  "Every frame an agent connection writes is an agent hello, an agent ack or an agent disconnect. The hello is sent at most once per connection, only as the reply to HAProxy's hello.",
  [H, I], "every connection history",
  "There is no test of the agent crate.",
  ["spoa/src/conn.rs", "spoa/src/state"],
  [("reply construction in each state", "spoa/src/state/connect.rs, process.rs, spoa/src/conn.rs")],
  observe=["frames written to the connection"]),
P("C30", "Configured limits and offers are the ones in force",
  "The versions, capabilities, maximum frame size and maximum processing time given to the builder are exactly the ones every connection negotiates with and enforces; what was not configured takes the documented default (SPOP 2.0, no capability, 16384 bytes, 15 seconds).",
  [C], "every builder configuration",
  "There is no test of the agent crate.",
  ["spoa/src/runtime/builder.rs", "spoa/src/runtime/runtime.rs", "spoa/src/conn.rs", "spoa/src/state/connect.rs", "spoa/src/state/process.rs"],
  [("values carried from builder to runtime to their use", "spoa/src/runtime/builder.rs make_service")],
  observe=["agent hello", "frame limit", "timeout"]),
P("C31", "A service is only called when it is ready",
  "Neither the service maker nor a connection's service is invoked before it has reported readiness for that call, and an error while waiting for readiness is treated like an error of the call.",
  [S, X], "every tower service and service maker, including rate-limited or buffered ones",
  "The tests only use services that are always ready.",
  ["spoa/src/state/process.rs", "spoa/src/runtime/runtime.rs"],
  [("readiness poll ahead of the call", "spoa/src/state/process.rs, spoa/src/runtime/runtime.rs")],
  observe=["poll_ready/call sequence seen by the service"]),
P("C32", "Memory safety: no unsafe code",
  "The library crates contain no unsafe code of their own: no input, schedule or misuse of their safe API can cause undefined behaviour through code in this repository.",
  [I, S, X], "every program using the library",
  "Undefined behaviour need not fail a test.",
  ["haproxy/src", "spoa/src", "spoe/src", "spop/src"],
  [("safe Rust throughout", "all crates")],
  observe=["compiler's unsafety information"]),
P("C33", "Reported sizes equal the bytes written",
  "Each data writer returns exactly the number of bytes it appended, for every value, and a header's declared size is the number of bytes its encoding takes.",
  [I], "every value of every kind",
  "The tests compare sizes for one value per kind.",
  ["spop/src/data/buf.rs", "spop/src/frame/metadata.rs"],
  [("size arithmetic next to each write", "spop/src/data/buf.rs put_typed, put_bytes, put_kv, put_kvlist")],
  observe=["return values", "bytes written"]),
P("C34", "Message and action handlers accept only their direction",
  "A handler for HAProxy's messages accepts notify frames and a handler for agent actions accepts ack frames; each turns its own side's disconnect into an error carrying the reported status (unknown if the code is not a known status), and refuses every other frame as invalid.",
  [I], "every frame given to each handler",
  "The tests give three frames to each of two handlers; the reassembling handlers are not tested.",
  ["spop/src/handler.rs", "spop/src/frame/fragment.rs"],
  [("match over the frame kind", "spop/src/handler.rs; spop/src/frame/fragment.rs AsyncHandler impls")],
  observe=["handler results"]),
P("C35", "Variable-length integers are SPOP's and round-trip exactly",
  "For every 64-bit number its encoding is SPOP's variable-length encoding, decoding that encoding returns the same number and consumes exactly the encoded bytes, and the size announced for it is the length of its encoding. Truncated encodings and encodings of numbers beyond 64 bits are refused.",
  [I], "all 2^64 numbers",
  "The test samples twelve values.",
  ["spop/src/data/varint.rs"], [("encode/decode loops", "spop/src/data/varint.rs")],
  observe=["bytes written", "number read"]),
P("C36", "Frames round-trip through SPOP's format",
  "The encoding of a frame is SPOP's encoding of exactly the values of its fields, and decoding an SPOP encoding yields exactly the values it carries, for the six kinds of frames SPOP defines and messages of up to 255 arguments: so decoding the encoding of a frame yields a frame equal to it in every field.",
  [I, C], "every frame value, every kind of data item, every count of items up to the format's limits",
  "The test samples one frame of each kind.",
  ["spop/src/frame/encode.rs", "spop/src/frame/decode.rs", "spop/src/data/buf.rs"], [("encoder and decoder", "spop/src/frame")],
  observe=["bytes written", "decoded frame"]),
P("C37", "Versions and capabilities have SPOP's textual form",
  "A version is written as its major number, a dot, its minor number, and each capability by its SPOP name (fragmentation, pipelining, async); that text reads back as the same value. In the comma-separated lists of a hello every item is taken into account up to the end of the list, blanks around an item are ignored, an empty capability list means no capability, and an item that is neither is refused.",
  [I], "every list of versions and of capabilities, with any spacing and any length",
  "The tests contain one version and one capability, without blanks.",
  ["spop/src/version.rs", "spop/src/caps.rs", "spop/src/frame/decode.rs", "spop/src/frame/kv.rs"],
  [("text of a version", "spop/src/version.rs"), ("text of a capability", "spop/src/caps.rs"), ("lists of a hello", "spop/src/frame/decode.rs")],
  observe=["items written in a hello", "fields of a hello read"]),
P("C38", "Constructors, accessors and conversions keep what they are given",
  "A frame, message, action, acknowledgement, disconnect or version built by a public constructor, builder or conversion holds every argument in its own field, unchanged, and every item of a list in order, and is neither fragmented nor aborted unless told so. What a value says of itself is what it holds: the type of a frame, its metadata and flags, whether a capability was negotiated, the order of versions (by major number, then minor). A data item made from a native value has the kind of that value and gives it back only as that kind.",
  [I], "every argument of every public constructor, accessor and conversion of the protocol types",
  "The tests use a few constructors as a means to build one frame of each kind.",
  ["spop/src/frame/frames.rs", "spop/src/frame/msg.rs", "spop/src/frame/metadata.rs", "spop/src/frame/agent.rs", "spop/src/frame/haproxy.rs", "spop/src/frame/disconnect.rs", "spop/src/action.rs", "spop/src/data/typed.rs", "spop/src/version.rs", "spoa/src/state/handshake.rs"],
  [("constructors of frames", "spop/src/frame/frames.rs"), ("message builder", "spop/src/frame/msg.rs"), ("flags", "spop/src/frame/metadata.rs"), ("conversions of data items", "spop/src/data/typed.rs"), ("negotiated capabilities", "spoa/src/state/handshake.rs")],
  observe=["fields of the values built", "values returned by accessors"]),
]

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS), "properties")
