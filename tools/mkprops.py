#!/usr/bin/env python3-vt
"""Writes /verif/properties.jsonl (kept here so that the statements are easy to edit and review)."""
import json, os
P=[]
D="lib/go/src/thrift/"
def prop(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":[D+f if "/" not in f else f for f in files],
       "mechanism":[{"name":n,"where":D+w if "/" not in w else w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Binary protocol: what is written is what is read",
 "Any message, struct, field header, container or value written with the binary protocol (strict or non-strict) and read back with the binary protocol from the same bytes yields exactly the same names, types, ids, sizes, sequence ids and values, consuming exactly the bytes that were written.",
 ["inputs","configurations"],"every value of every base type, every name/string/binary content, every legal sequence of writer calls (nesting included), strict and non-strict headers",
 "Tests round-trip a handful of hand-picked values per type and at most one message header; the claim is over all 2^64 values, all byte contents and all nestings.",
 ["tbinary_protocol.go","tprotocol.go"],[("big-endian fixed-width encoding, length-prefixed strings","tbinary_protocol.go"),("version word in strict message headers","tbinary_protocol.go")])
prop("C02","Binary protocol: bytes on the wire are the Thrift binary format",
 "Every writer call of the binary protocol emits exactly the bytes the Thrift binary specification prescribes (big-endian integers, IEEE-754 doubles, 4-byte lengths, 1-byte type tags with BINARY tagged as STRING, 0x8001 version word or bare name for message headers, 0x00 field stop), and every reader call accepts exactly those bytes, so other implementations interoperate.",
 ["inputs","configurations"],"every value, name, type tag, id and size; strict and non-strict",
 "A symmetric bug in encoder and decoder passes every round-trip test; no test compares bytes with the specification.",
 ["tbinary_protocol.go","ttype.go"],[("WriteXxx/ReadXxx","tbinary_protocol.go"),("ThriftTypeId","ttype.go")])
prop("C03","Compact protocol: what is written is what is read",
 "Any message, struct, field header, container or value written with the compact protocol and read back with it from the same bytes yields exactly the same names, message types, field types and ids (for any sequence of ids and any nesting of structs), sizes and values - boolean fields and boolean container elements included - consuming exactly the bytes written.",
 ["inputs"],"every value of every type, every sequence of field ids within and across nested structs, every collection size, every message type and sequence id",
 "Field-id deltas, nested struct stacks and the boolean-in-header encoding interact; tests use a few flat values only.",
 ["tcompact_protocol.go"],[("field id delta stack lastField/lastFieldId","tcompact_protocol.go"),("boolean field folding","tcompact_protocol.go"),("zigzag varints","tcompact_protocol.go")])
prop("C04","Compact protocol: bytes on the wire are the Thrift compact format",
 "Every compact-protocol writer call emits exactly the bytes of the Thrift compact specification as this library documents it (0x82 protocol id, version 1 with the 3-bit message type, zigzag varints, field-id delta headers, short and long collection headers, 1-byte empty map, little-endian doubles, varint-prefixed strings), and every reader call decodes exactly those bytes to the same values.",
 ["inputs"],"every value, id, previous id, type tag, size and content",
 "Symmetric encoder/decoder mistakes are invisible to round-trip tests; the size and delta thresholds (14/15, 127/128, 2^31) are not sampled.",
 ["tcompact_protocol.go"],[("writeVarint32/64, zigzag","tcompact_protocol.go"),("writeFieldBeginInternal","tcompact_protocol.go"),("writeCollectionBegin","tcompact_protocol.go")])
prop("C05","JSON protocol: what is written is what is read",
 "Any message, struct, field, container or base value written with the JSON protocol and read back with it yields the same names, message type, sequence id, field ids and field types, container element types and sizes, and values, with the reader's context restored so that the next value is read correctly.",
 ["inputs"],"every base value, every string and binary content (valid UTF-8 for strings), every legal nesting of structs and containers, map keys of any base type",
 "Tests write one value of one type at a time and mostly check it with a JSON library; nested structures with fields of every type are never read back.",
 ["tjson_protocol.go","tsimple_json_protocol.go"],[("context stacks dumpContext/parseContextStack","tsimple_json_protocol.go"),("type names TypeIdToString/StringToTypeId","tjson_protocol.go")])
prop("C06","Simple JSON protocol: values and containers round-trip",
 "Any message header, list, set, map or base value, nested to any depth, written with the simple JSON protocol and read back with it yields the same names, types, sizes, ids and values, and struct fields are read back in order under the names they were written with.",
 ["inputs"],"every base value, string and binary content, every nesting of lists, sets, maps and structs",
 "Tests check one scalar or one flat list/map at a time.",
 ["tsimple_json_protocol.go"],[("Output*/Parse* context machine","tsimple_json_protocol.go")])
prop("C07","JSON protocols always emit well-formed JSON",
 "For every legal sequence of writer calls, the bytes emitted by the JSON and simple JSON protocols form exactly one syntactically valid JSON text per top-level value - object keys are strings, separators are right, strings are escaped - and string, integer, boolean and null content decoded by an independent JSON parser equals what was written.",
 ["inputs"],"every legal writer call sequence within the stated nesting, every string content, every number, NaN and infinities included",
 "Tests parse the output of single calls with encoding/json; sequences and nestings are not enumerated.",
 ["tsimple_json_protocol.go","tjson_protocol.go"],[("OutputPreValue/OutputPostValue","tsimple_json_protocol.go"),("JsonQuote","tsimple_json_protocol.go")])
prop("C08","Skip consumes exactly one value, whatever its shape",
 "Skipping a value of any type with any protocol that carries types on the wire (binary, compact, JSON) consumes exactly the bytes of that value, so that whatever follows it is read correctly; this is what lets a reader ignore unknown fields.",
 ["inputs"],"every value shape (nested structs, lists, sets, maps, booleans as fields and as elements) within the stated depth, every content",
 "No test skips anything.",
 ["tprotocol.go","tcompact_protocol.go","tjson_protocol.go"],[("Skip","tprotocol.go")])
prop("C09","Skip reports errors and enforces the depth limit",
 "Skip never reports success unless it consumed a whole value: if the input ends or is malformed inside the value, or the transport fails, an error is returned (and the loop stops); and when a value nests deeper than the maximum depth given, Skip returns an error instead of recursing further.",
 ["inputs","fault_sequences"],"every truncation point of every value shape, every declared size, every depth limit",
 "No test skips truncated or too deep input.",
 ["tprotocol.go"],[("Skip, maxDepth","tprotocol.go"),("MaxSkipDepth, SkipDefaultDepth","tprotocol.go")])
prop("C10","Binary and compact decoders survive arbitrary bytes",
 "For every byte string and every legal reader call sequence, the binary and compact readers return normally (no panic, no unbounded loop); a value that is not completely present yields an error rather than a value; and a negative length or size is rejected with an error.",
 ["inputs"],"every byte string up to the stated length, every reader entry point",
 "Tests only decode bytes that the library itself produced.",
 ["tbinary_protocol.go","tcompact_protocol.go","ttransport.go"],[("readAll / readStringBody / ReadBinary","tbinary_protocol.go"),("readVarint64 / ReadBinary","tcompact_protocol.go")])
prop("C11","JSON decoders survive arbitrary bytes",
 "For every byte string and every reader entry point, the JSON and simple JSON readers return normally (no panic, no unbounded loop), and input that is not a JSON value of the expected kind (truncated literals, unterminated or malformed strings, malformed base64, malformed numbers, negative container sizes, anything but a comma between two values, a message of another version of the protocol) yields an error rather than a made-up value.",
 ["inputs"],"every byte string up to the stated length, every reader entry point",
 "Tests decode well-formed text only.",
 ["tsimple_json_protocol.go","tjson_protocol.go","tnumeric.go"],[("Parse* functions","tsimple_json_protocol.go"),("readNumeric","tsimple_json_protocol.go")])
prop("C12","Transport failures are reported, never swallowed",
 "If the underlying transport returns an error (having accepted any number of bytes), or its stream ends early, at any point of a protocol write, read or flush, that protocol call (or, for buffered output, the following flush) returns a non-nil error; if no call returned an error, every byte was handed to the transport exactly once and in order.",
 ["fault_sequences","inputs"],"a failure injected at any single write, read or flush of the transport, any partial count, all four protocols",
 "Tests only use transports that never fail.",
 ["tbinary_protocol.go","tcompact_protocol.go","tsimple_json_protocol.go","tjson_protocol.go","tiostream_transport.go","tframed_transport.go"],[("error returns of WriteXxx/ReadXxx","tbinary_protocol.go"),("bufio wrapping","tiostream_transport.go")])
prop("C13","Framed transport: transparent byte stream in length-prefixed frames",
 "Each flush of a framed transport hands the underlying transport one frame - a 4-byte big-endian length followed by exactly the bytes written since the previous flush - and reading through a framed transport yields exactly the concatenation of the payloads of the frames, for any frame sizes (empty frames included) and any read sizes; a truncated or failing frame is an error, never data; a transport that is closed and opened again sends and delivers nothing that was left of the last connection.",
 ["inputs","histories"],"every sequence of writes, flushes and reads of any sizes; every frame sequence; every truncation",
 "Tests flush and read one fixed buffer.",
 ["tframed_transport.go"],[("writeBuffer/Flush","tframed_transport.go"),("readFrame","tframed_transport.go")])
prop("C14","ReadAll fills the buffer exactly or reports an error",
 "ReadAll on any transport returns (len(buf), nil) with the buffer filled by the stream's next len(buf) bytes, or a non-nil error; whatever sizes the underlying reads return - short reads, data together with an error or EOF, or no progress (which may be refused) - it never reports success for a buffer it did not fill and never fails when all the bytes were delivered.",
 ["inputs","fault_sequences"],"every behaviour of the underlying Read allowed by io.Reader, every buffer size",
 "Tests use readers that return everything at once.",
 ["ttransport.go"],[("ReadAllTransport","ttransport.go")])
prop("C15","Decoding does not depend on how bytes arrive",
 "For every protocol, reading a message gives the same results whether the transport delivers the bytes in one piece, one byte at a time, or in any other chunking.",
 ["inputs","schedules"],"every split of the byte stream into chunks, all four protocols",
 "Tests always read from a memory buffer that returns all bytes at once.",
 ["tbinary_protocol.go","tcompact_protocol.go","tsimple_json_protocol.go","tjson_protocol.go"],[("readAll","tbinary_protocol.go"),("bufio.Reader look-ahead","tsimple_json_protocol.go")])
prop("C16","Memory and stream transports are FIFO byte queues",
 "Bytes read from a memory buffer or stream transport are exactly the bytes written to it, in order, each once, for any interleaving of writes, reads, resets and flushes of any sizes (zero-length included); reported counts are exact, and using a missing reader or writer is a NOT_OPEN error, not a crash.",
 ["histories","inputs"],"every sequence of operations up to the stated length, every content and size",
 "Tests write one fixed buffer and read it back.",
 ["tmemory_buffer.go","tiostream_transport.go"],[("bytes.Buffer delegation","tmemory_buffer.go"),("Reader/Writer delegation","tiostream_transport.go")])
prop("C17","Sockets: closed means NOT_OPEN, flush sends in order, timeouts are set",
 "On a socket transport that is not connected, read, write and flush return a NOT_OPEN transport error and do not panic; on a connected one, the peer receives exactly the bytes written, in order, once each, by the time flush succeeds; opening an open socket is ALREADY_OPEN; a socket opened again sends nothing left of the last connection; and a read deadline is set before a read exactly when a positive timeout is configured.",
 ["histories","configurations","fault_sequences"],"every sequence of open/read/write/flush/close up to the stated length, every timeout, every connection failure",
 "Tests exercise one loopback exchange.",
 ["tsocket.go","tnonblocking_socket.go"],[("IsOpen guard","tsocket.go"),("writeBuffer/Flush","tsocket.go"),("pushDeadline","tsocket.go")])
prop("C18","Value comparison is a total order consistent with equality",
 "For every Thrift type, comparing values of the type is reflexive, antisymmetric and transitive, returns 0 exactly for equal values, orders numbers numerically (NaN equal to itself and below all others), strings and binaries lexicographically and false before true, ranks nil lowest, compares structs (generated ones too) by their fields, and Less(i,j) agrees with Compare(i,j) < 0; the exported Compare helpers agree with it.",
 ["inputs"],"every pair and triple of values of every comparable type",
 "Tests compare a few lists and maps.",
 ["ttype.go","tcompare.go"],[("TType.Compare / Less","ttype.go"),("CompareXxx","tcompare.go")])
prop("C19","Coercion preserves the value or refuses",
 "Coercing a value to a Thrift type yields that value in the type's Go representation - numbers converted as Go converts them, text parsed, enumeration values as their number or name, numbers and booleans rendered as decimal text or true/false - and reports success; text that is not a number of the type's range, and values of other kinds, are reported as not coercible; the result always has the type's Go representation.",
 ["inputs"],"every source Go type and value within the stated string lengths, every target Thrift type",
 "No test covers coercion.",
 ["ttype.go","tnumeric.go"],[("CoerceData","ttype.go")])
prop("C20","TList behaves as a sequence",
 "A list behaves exactly like a sequence of values coerced to its element type: length, element access, insertion, replacement, removal, swap, append, containment, order of elements and iteration agree with the mathematical sequence; setting past the end appends, other out-of-range accesses and values that cannot be coerced are refused without changing the list; an untyped list takes the type of its first element.",
 ["histories","inputs"],"every sequence of operations up to the stated length, every value and index",
 "Tests push one list once.",
 ["tlist.go"],[("tList","tlist.go")])
prop("C21","TSet behaves as a mathematical set",
 "A set contains exactly the distinct values added and not removed since: each once, whatever the insertion order; length, containment, values and iteration agree with that, and removal removes only the named value. An untyped set takes the type of its first element; values that cannot be coerced to it are refused.",
 ["histories","inputs"],"every sequence of adds and removes up to the stated length, every value",
 "Tests add elements in one order.",
 ["tset.go"],[("sorted linked list with Compare","tset.go")])
prop("C22","TMap behaves as a finite map",
 "A map returns for each key (other than NaN) the value most recently set, coerced to the value type, and reports absence otherwise, for every supported key type (base types, binary, structs and containers); its length, key list, value list, iteration and containment queries describe exactly those associations.",
 ["histories","inputs"],"every sequence of set/get up to the stated length, every key and value, every key type",
 "Tests set three keys of one type.",
 ["tmap.go"],[("tMap per-key-type Go maps and association lists","tmap.go")])
prop("C23","Container equality ignores insertion and iteration order",
 "Two sets with the same elements, or two maps with the same associations, compare equal whatever the order in which they were built and in which the runtime iterates them; containers that differ in size, in an element or in an association compare unequal, and lists compare element by element.",
 ["histories","inputs","schedules"],"every pair of build histories up to the stated length, every map iteration order",
 "Tests build one map in two orders and rely on luck for iteration order.",
 ["ttype.go","tmap.go","tset.go","tlist.go"],[("TType.Compare","ttype.go"),("CompareTo/Equals","tmap.go")])
prop("C24","Struct and field metadata lookups are exact",
 "A field container returns for each field id and each field name the field that has it, wherever it stands in the container, and the STOP/ANONYMOUS placeholder otherwise; ids from names and names from ids are mutually inverse; iteration, positions and length cover every field once, in the order of the ids; and containers are equal exactly if they have the same fields (ids and types), in whatever order they were given.",
 ["inputs"],"every list of fields with distinct ids and names up to the stated length, every id and name looked up",
 "Tests do not cover field containers.",
 ["tfield.go","tstruct.go"],[("NewTFieldContainer, FieldFromFieldId","tfield.go")])
prop("C25","Exceptions travel unchanged and calls are always answered",
 "An application exception written to any protocol that carries field ids (binary, compact, JSON) is read back with the same type and message, whatever the order of its fields and even amid unknown fields, while one that could not be written or read completely is an error; and a server processor answers every well-formed call with a reply of the same method name and sequence id - a REPLY carrying the handler's result, or an EXCEPTION of type UNKNOWN_METHOD for a method it does not have - leaving the stream positioned at the next call.",
 ["inputs","histories"],"every exception type and message, every field order, every method name, sequence id and argument",
 "No test drives a processor; the exception test checks a constructor.",
 ["tapplication_exception.go","tprocessor.go","tests/generation/golden/gen-go/simple/ttypes.go"],[("Read/Write","tapplication_exception.go"),("Skip of unknown arguments","tprotocol.go")])
prop("C26","Servers serve every connection, clean up, and stop",
 "A simple or non-blocking server processes requests on every accepted connection until the processor reports the end or an error, closes that connection's transports exactly when done, returns listen and accept errors to the caller, and after Stop (once Serve is listening) it accepts no further connection and Serve returns.",
 ["schedules","fault_sequences","histories"],"every interleaving of Stop and of the connections with Serve at its calls of the transport and the processor, every sequence of accept results and processor outcomes",
 "The server tests run one request over loopback and cannot control the schedule.",
 ["tsimple_server.go","tnonblocking_server.go","tserver_socket.go","tnonblocking_server_socket.go"],[("stopped flag and Interrupt","tsimple_server.go"),("processRequest","tsimple_server.go")])
prop("C27","Generated structs read back what they wrote",
 "A generated struct written with any protocol and read into a fresh instance is equal to the original, with every enumeration field value preserved; unknown fields and fields whose type on the wire differs are skipped without disturbing the others; a read error is reported.",
 ["inputs"],"every field value, every unknown field id and shape, all protocols with field ids on the wire",
 "The generated-code test round-trips one fixed value.",
 ["tests/generation/golden/gen-go/simple/ttypes.go","tbinary_protocol.go","tcompact_protocol.go","tjson_protocol.go"],[("Read/Write of generated structs","tests/generation/golden/gen-go/simple/ttypes.go")])
prop("C28","Error conversion keeps the error and its class",
 "Converting an error to a protocol or transport exception yields nil exactly for nil, keeps the message, keeps an exception that already has the requested kind unchanged, and classifies end of file as END_OF_FILE (transport) and malformed base64 as INVALID_DATA (protocol); the kind of one is never taken for a kind of the other; exceptions, fields and messages describe themselves by their own type id, numbers (in decimal) and message.",
 ["inputs"],"every error value and message, every type id",
 "Tests convert one or two errors.",
 ["tprotocol_exception.go","ttransport_exception.go","texception.go"],[("NewTProtocolExceptionFromOsError","tprotocol_exception.go"),("NewTTransportExceptionFromOsError","ttransport_exception.go")])
prop("C29","Numeric values convert consistently between representations",
 "A Numeric built from an integer, float or JSON text reports that value through every accessor that can represent it: integer accessors agree with Go conversion, the string form is its decimal text, and JSON text that is a 64-bit integer or a double yields exactly that number; null, NaN and infinities keep their identity.",
 ["inputs"],"every int32/int64/float64 value, every decimal text up to the stated length",
 "Tests do not cover Numeric construction from numbers.",
 ["tnumeric.go"],[("NewNumericFrom*","tnumeric.go")])
prop("C30","HTTP client posts exactly what was written and reads exactly the reply",
 "The HTTP client transport sends, on flush, one POST whose body is exactly the bytes written since the previous flush, then reads exactly the response body; an error or a status other than 200 is returned as an error (of the GET of a client made to get, too), response bodies are closed, and no stale response is readable afterwards as if it were the new one; closed or never-flushed clients fail with NOT_OPEN.",
 ["histories","fault_sequences","inputs"],"every sequence of writes, flushes, reads and closes up to the stated length, every status code and failure",
 "The HTTP test talks to one local server once.",
 ["thttp_client.go"],[("requestBuffer / http.Post","thttp_client.go")])
GEN=["compiler/cpp/src/generate/t_go_generator.cc"]
prop("C31","The Go generator's structs put on the wire what the IDL declares, and read it",
 "A struct that the Go generator generates from an IDL program compiles, is new with the declared default values, and writes, with every protocol, exactly the fields the IDL declares - by id, name and type - with the values it holds: optional fields exactly when they differ from their default (containers, structs, enums and binaries that have one at least then), unset structs, containers and enums not at all; what it reads from such a wire are those values again, fields in any order, while fields it does not declare (or of another type) are skipped; containers, enums, typedefs, nested and recursive structs, fields without ids and fields with awkward names included; a transport error or an input that ends early is reported.",
 ["inputs","programs","fault_sequences"],"every value of every field within bounds, any order and foreign fields, every failing operation or cut; for the IDL programs in thriftc/idl and the repository's own",
 "The generator is not run by any test of the repository; one golden file is compiled.",
 GEN,[("generate_go_struct_reader/writer, generate_serialize_*/deserialize_*","compiler/cpp/src/generate/t_go_generator.cc"),("generate_isset_helpers, render_const_value","compiler/cpp/src/generate/t_go_generator.cc")])
prop("C32","Generated clients and processors call exactly what is called and return it",
 "With the client and the processor that the Go generator generates for a service (inherited functions included), a call of any function with any arguments reaches the handler exactly once as exactly that call, and the caller receives exactly the handler's result, declared exception or error; the messages on the wire carry the function's name, CALL, ONEWAY, REPLY or EXCEPTION, the sequence number, and arguments, results and exceptions by their declared ids; oneway calls are not answered; unknown functions and unreadable arguments are answered by an exception without calling the handler; a reply to another call and any failure to send, flush or receive is an error; the next call works.",
 ["inputs","histories","fault_sequences","programs"],"every function of the program, every argument, outcome and sequence number within bounds, two calls in a row, every failing operation or cut",
 "No test runs a generated client or processor of more than one function.",
 GEN,[("generate_service_client","compiler/cpp/src/generate/t_go_generator.cc"),("generate_service_server, generate_process_function","compiler/cpp/src/generate/t_go_generator.cc")])
prop("C33","Generated enums and constants have the names and values of the IDL",
 "Every enum value the Go generator generates has the declared (or counted) number; its name and number determine each other and no other text or number is taken for it; enum values are found by their numbers in lists, sets and maps; constants of base, enum, struct and container types have exactly the declared values and elements, usable as the declared types.",
 ["inputs","programs"],"every number, every text up to the stated length, every element or key looked up",
 "No test runs the generator.",
 GEN,[("generate_enum, generate_const","compiler/cpp/src/generate/t_go_generator.cc"),("render_const_value","compiler/cpp/src/generate/t_go_generator.cc")])
prop("C34","Generated structs describe their fields and compare by them",
 "A struct that the Go generator generates describes exactly the fields the IDL declares: any id or name finds the declared field, its type and its current value, or nothing; two structs of a kind are equal exactly if all their fields are, comparison is consistent with equality and antisymmetric, and no struct equals nil or one of another kind.",
 ["inputs","programs"],"every id, every name up to the stated length, any two values of every field",
 "No test runs the generator or compares generated structs.",
 GEN,[("TStructFields, AttributeFromFieldId, CompareTo, Equals","compiler/cpp/src/generate/t_go_generator.cc"),("struct comparison","ttype.go")])
prop("C35","Types: each has its name and class, and every value its type",
 "For every type number, the classification predicates (base, numeric, string, integer, container, struct, enum, empty) answer as Thrift defines its types, every type has a name of its own and its number on the wire; a type is equal to, and ordered against, another type however that is given (a TType or any Go number); and the type determined from a Go value, by which containers without an element type choose theirs, is the one as which the value is stored unchanged.",
 ["inputs"],"every type number, every pair of them in every numeric representation, every value of every Go type that can be stored",
 "No test asks a type anything; container, set and map code branches on these answers.",
 ["ttype.go"],[("IsBaseType ... IsInt, String, ThriftTypeId","ttype.go"),("Coerce, Equals, LessType","ttype.go"),("TypeFromValue","ttype.go")])
prop("C36","Generated command-line clients call what the command line says",
 "The command-line client that the Go generator generates for a service calls, for a command line with the name of a function of the service and a text for each of its arguments, that function exactly once with exactly the values the texts stand for (decimal numbers, true or false, text as it is, simple JSON for structs and containers), over the transport, address or URL and protocol that the flags name, and prints the result, declared exception or error; for any other command line (unknown function or protocol, wrong number of arguments, a text that is no value of the argument's type, a transport that cannot be opened) it calls nothing and says so.",
 ["inputs","programs"],"every text up to the stated length for one argument at a time and numbers at the limits of the types, every function of the programs, every outcome, every combination of the stated flags",
 "No test runs the generator or a command-line client.",
 GEN,[("generate_service_remote","compiler/cpp/src/generate/t_go_generator.cc")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
