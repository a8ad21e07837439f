# Writes ../properties.jsonl (kept as a script so the long statements stay reviewable).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
GOV=["encode.go","v2/encode.go"]; 
ENC=["encode.go","encoder.go","v2/encode.go","v2/encoder.go","encoder.rs","c_bindings/encoder.rs","encoder.ts"]
DEC=["decode.go","decoder.go","v2/decode.go","v2/decoder.go","decoder.rs","c_bindings/decoder.rs","decoder.ts"]
p("C01","Every implementation encodes the same calls to the same wire bytes",
 "For any sequence of encode calls (nil, slice and map headers, bytes, strings, errors, booleans, unsigned and signed integers, floats, in TypeScript also the any marker) the Go v1, Go v2, Rust, C and TypeScript encoders all produce exactly the bytes of the polyglot wire format: a type tag followed by the minimal little-endian base-128 varint (zigzag for signed integers), the big-endian float bits, the single byte, or the varint length and the raw data. The output of a sequence is the concatenation of the outputs of its calls, whatever values and lengths are involved.",
 ["inputs","programs"],"all values of every kind, all call sequences, five implementations",
 "The unit tests and integration-test-data.json encode about twenty fixed values per language; the varint code is unrolled per byte length in Go v2 and hand-written five times, so a wrong byte-length branch or a value-specific error is not reached.",
 ENC+["kind.rs","kind.ts","v2/encode.go"],[("unrolled/looped varint encoders and tag constants","encode.go, v2/encode.go, encoder.rs, encoder.ts"),("status/handle layer over the Rust encoder","c_bindings/encoder.rs")],
 ["bytes returned by each public encoder"])
p("C02","Every implementation decodes every implementation's output exactly",
 "Any sequence of values encoded by any implementation decodes in every other implementation, by the matching calls in order, to exactly the same values (integers and float bits included, raw bytes and strings byte for byte), and each call consumes exactly the bytes of its own item. Nothing is left over at the end and bytes that follow the last item are untouched.",
 ["inputs","programs"],"all values and sequences, all encoder/decoder pairs of five implementations, arbitrary trailing bytes",
 "Existing tests round-trip a handful of values within one language and one fixed file across languages; no test decodes boundary values of each varint length in each language or checks what follows.",
 DEC+ENC,[("per-kind decode functions returning the remaining input","decode.go, v2/decode.go, decoder.rs, decoder.ts")],["results of public decode calls, remaining input probed with a trailing sentinel item"])
p("C03","No input bytes can crash, hang or escape a decoder",
 "Given any byte string and any sequence of decode calls, in Go v1, Go v2, Rust, C and TypeScript, every call returns a value or reports a failure: it never panics, aborts, faults, loops forever or reads outside the input. This includes truncation at any byte, unterminated and overlong varints, lengths beyond the input, and calls repeated after failures.",
 ["inputs","programs"],"all byte strings and call sequences",
 "Tests decode well-formed data plus an empty buffer; truncated and hostile input (an index-out-of-range panic in both Go versions at the pinned commit) is never tried.",
 DEC,[("length checks before every index","decode.go, v2/decode.go"),("Read trait short-read errors","decoder.rs"),("length checks before pop","decoder.ts")],["process exit, recovered panics, per-call watchdog, Go checkptr/guard pages, valgrind for C"])
p("C04","A decode succeeds only on a complete well-formed item of its type",
 "A decode call reports success only when the unread input starts with a complete item of the requested type (for slices and maps, of the requested element kinds); a wrong tag, a truncated item, an unterminated varint or one too large for its type, a boolean byte other than 0 and 1, a length that exceeds the remaining input, or text that is not UTF-8 in Rust, C and TypeScript, is always reported as failure, never as a zero, shortened or garbage value. Failures are the library's own decoding errors (in Go and on any type mismatch the error of the requested operation; in TypeScript a library error class; in C the failure status with a zero or null result).",
 ["inputs","programs"],"all byte strings, every requested type, every truncation point",
 "Tests check failure only at end of input after a valid item, so partial items and lying lengths are unexplored; at the pinned commit TypeScript returned short strings and garbage integers and Go v2 accepted an unterminated length, and every implementation took varints too large for their type modulo something (each something else).",
 DEC,[("tag comparison, varint group limit and size checks","decode.go, v2/decode.go, decoder.rs, decoder.ts"),("Result to status mapping","c_bindings/decoder.rs")],["success/failure and error identity of each decode call"])
p("C05","A type-mismatched or failed nil probe consumes nothing",
 "When a decode call (including the nil probe) fails because the next item has another type tag or, for slices and maps, other element kinds, the read position does not move, so the caller can go on to probe for any other type and still decode the item in full. This holds for any number of consecutive failed probes, in every implementation.",
 ["inputs","histories"],"all item types against all probe types, all probe sequences",
 "Tests never decode after a mismatch; the generated code's optional-field handling relies on it.",
 DEC,[("failure returns the unread input / restores the position","decode.go, v2/decode.go, decoder.rs, decoder.ts")],["results of decode calls issued after failed probes"])
p("C06","Decoding memory is bounded by the input, not by lengths it claims",
 "The memory a decode call allocates is at most proportional to the number of input bytes it is given: a length or count field that claims more than the input holds makes the call fail (or, for slice and map headers, be returned as a number) without allocating for the claimed size. This holds for the Go, Rust, C and TypeScript decoders.",
 ["inputs"],"all claimed lengths up to the 32-bit maximum, all item types, all positions in the input",
 "No test measures allocation on lying lengths; the Rust decoder allocated up to 4 GiB for a 7-byte input at the pinned commit.",
 DEC,[("size compared with the remaining input before allocation","decode.go, v2/decode.go, decoder.rs, decoder.ts")],["Go TotalAlloc delta, Rust counting global allocator, C malloc accounting, node heap/external counters"])
p("C07","Encoded output does not depend on the buffer it is written into",
 "Encoding a sequence of values appends the same bytes whatever buffer it is written into: any initial capacity including zero, a caller-supplied slice or subarray, previous contents, any amount of spare room, a buffer reused after reset or taken from a pool, and any number of growths in the middle. Bytes already in the buffer are kept unchanged and nothing outside the caller-supplied storage's own range is overwritten or exposed.",
 ["inputs","histories","configurations"],"all item types at every amount of spare room, all buffer origins (Go v1, Go v2, Rust, C, TypeScript)",
 "Tests encode into fresh default-size buffers, so growth happens at one or two positions only; off-by-one reservation errors only show at an exact amount of spare room.",
 ENC+["buffer.go","v2/buffer.go","v2/pool.go"],[("reserve-before-write","v2/buffer.go Grow, encoder.ts resize"),("append","buffer.go")],["buffer contents after each encode call"],
 [("write offset","number of valid bytes","v2/buffer.go, encoder.ts"),("capacity","room before the next growth","v2/buffer.go, encoder.ts")])
p("C08","A Go buffer behaves as an append-only byte log across its history",
 "Through any history of Write, Reset, Grow, MoveOffset and encode calls, a Go buffer's bytes and length are those of an append-only log that Reset empties: Write appends all the given bytes and reports their number, Grow(n) makes room for n more bytes without changing contents or length, capacity is never below length nor reduced, and reserved bytes filled by the caller and committed with MoveOffset become part of the content. A buffer made from caller bytes starts empty and uses that storage.",
 ["histories"],"all operation histories over v1 and v2 buffers, all sizes",
 "buffer_test.go has three single-step scenarios; histories mixing growth, reset and reuse are not explored.",
 ["buffer.go","v2/buffer.go"],[("Grow/Write/Reset/MoveOffset","v2/buffer.go"),("Write/Reset on append","buffer.go")],["Bytes, Len, Cap after every step, against a model log"])
p("C09","Decoded values and encoded inputs never share mutable storage",
 "Decoding never modifies the input, and decoded bytes, strings and errors stay unchanged when the input, the encoder's buffer, the decoder or other decoded values are later overwritten, reused or collected; encoding copies its arguments and does not modify them. When a destination slice is passed to a Go bytes decode, the result holds exactly the decoded bytes, reuses the destination's storage only within its capacity, and no earlier content shows through.",
 ["inputs","histories"],"all values, all orders of later mutation, all destination lengths and capacities",
 "Tests compare values immediately after decoding and never mutate afterwards; aliasing (for example a zero-copy string) passes them.",
 DEC+ENC,[("copying conversions string(b), append(ret[:0], ...), slice()","decode.go, v2/decode.go, decoder.ts"),("unsafe string views used only while writing","encode.go, v2/encode.go")],["values re-read after overwriting and freeing the sources (GODEBUG=clobberfree=1, checkptr)"])
p("C10","Pooled buffers and decoders are exclusively owned and handed out clean",
 "Under any concurrent use, a buffer or decoder obtained from a pool is owned by one holder until it is returned: no other get returns it meanwhile, and returning nil is harmless. A pooled buffer is always handed out empty whatever its previous holder wrote, a pooled decoder always starts at the beginning of the input it was obtained for, and neither shows data of a previous use.",
 ["schedules","histories"],"all interleavings of get, use and put by any number of goroutines, with garbage collection in between",
 "pool tests are single-goroutine or check one get/put pair; ownership under contention and after GC is not observed.",
 ["v2/pool.go","decoder.go","v2/buffer.go"],[("sync.Pool with reset on put","v2/pool.go"),("decoder pool assigning input on get, dropping it on return","decoder.go")],["ownership registry at get/put, contents stamped by each holder, -race"],
 [("pool","idle buffers/decoders","v2/pool.go, decoder.go")])
p("C11","Independent encoders and decoders are safe to use concurrently",
 "Encoding and decoding with distinct buffers, encoders and decoders from any number of threads is free of data races and gives every thread exactly the results it would get alone, even when they decode the same shared input or encode the same shared values. This holds for both Go versions, Rust and the C bindings.",
 ["schedules","inputs"],"all interleavings of independent codec operations",
 "The existing tests are single-threaded; hidden package-level state such as scratch buffers would not be noticed.",
 ["encode.go","decode.go","v2/encode.go","v2/decode.go","encoder.rs","decoder.rs","c_bindings/encoder.rs","c_bindings/decoder.rs"],[("no mutable package state apart from the pools","all codec files")],["race detector, Miri data-race detection, per-thread results compared with the sequential oracle"])
p("C12","Steady-state encode and scalar decode allocate nothing; growth is geometric",
 "In Go, encoding into a buffer with enough spare capacity, re-encoding into a reset buffer, and decoding nil, headers, booleans, integers, floats or bytes into a large enough destination perform no heap allocation. When a buffer must grow, appending N bytes in small items causes at most a logarithmic number of reallocations, and a single large item only a constant number.",
 ["inputs","histories"],"all item types and values, all sequences within capacity, growth from any initial capacity",
 "The allocation tests measure one fixed value per type; allocation on particular byte lengths or after growth, and linear growth, pass them.",
 ["v2/buffer.go","v2/encode.go","v2/decode.go","buffer.go","encode.go","decode.go","v2/pool.go"],[("reserve then store, doubling growth","v2/buffer.go"),("decode by value","v2/decode.go")],["testing.AllocsPerRun, capacity-change events"])
p("C13","The C API is memory-safe for every valid sequence of calls",
 "For any sequence of C API calls that passes live handles, buffers of the stated sizes and NUL-terminated strings, and frees each returned object once with its own free function, the library never reads or writes outside those objects, never uses or frees memory twice or with the wrong size, and leaves nothing allocated once everything is freed. Returned bytes and strings remain valid and unchanged until freed, independent of the decoder, its input and each other, including empty ones, and freeing a null pointer is harmless.",
 ["programs","inputs"],"all valid call sequences and data, including empty bytes and strings and any order of frees",
 "The single C test makes one pass over fixed values under valgrind; empty byte arrays crashed in free and every freed byte array used the wrong allocation size at the pinned commit, undetected.",
 ["c_bindings/decoder.rs","c_bindings/encoder.rs","c_bindings/types.rs","polyglot.h.in"],[("Box/CString into_raw and from_raw pairs","c_bindings/decoder.rs, c_bindings/encoder.rs")],["Miri over the extern functions, valgrind memcheck over a compiled C driver, canaries around caller buffers"])
p("C14","Every C call sets the status that tells what happened",
 "Every C call given a status pointer sets it on every path: pass when the operation took effect, the null-pointer status when a required handle or data pointer is null, failure otherwise; on the latter two nothing is written or consumed from a null argument and the result is zero or null. The reported encoder size is exactly the number of bytes the buffer call delivers, which refuses a too small destination without touching it and never writes beyond that size. Without a status a call may stop the process deliberately, but never writes through the null pointer.",
 ["inputs","programs"],"all calls with every combination of null arguments, all destination sizes, stale status values",
 "The C test only exercises the success path with a status variable that already holds pass.",
 ["c_bindings/encoder.rs","c_bindings/decoder.rs","c_bindings/types.rs"],[("null checks and status assignment in each extern function","c_bindings/encoder.rs, c_bindings/decoder.rs")],["status pre-set to a poison value before each call, canary bytes around destinations"])
p("C15","Generated Go code compiles and round-trips every schema message",
 "For any single-file protobuf schema of scalars, bytes, enums, nested messages, repeated fields and maps (with distinct, non-reserved names), the Go code generated by the v1 and v2 plugins compiles, whatever the fields are called, and encoding a message and decoding it yields an equal message, both into a fresh value and into one that previously held other data (an absent message may come back as an empty one; the last of equal map keys wins). The bytes written follow the documented field layout (scalars and enums in declaration order, then repeated fields, then messages and maps), and decoding consumes exactly the message.",
 ["programs","inputs"],"all schemas of the supported kinds and all values of their messages",
 "No test runs a generator on a schema and compiles the result; only the output for one benchmark schema is checked in (repeated enums, repeated bytes and maps of bytes did not compile at the pinned commit).",
 ["generator/golang/structs.go","generator/golang/generator.go","generator/golang/templates/encode.templ","generator/golang/templates/decode.templ","generator/golang/templates/encodeMap.templ","generator/golang/templates/decodeMap.templ","v2/generator/golang/structs.go","v2/generator/golang/templates/encode.templ","v2/generator/golang/templates/decode.templ"],
 [("field classification and kind lookup","generator/golang/structs.go, v2/generator/golang/structs.go"),("encode/decode templates","generator/golang/templates, v2/generator/golang/templates")],["compiler result, encoded bytes and decoded fields against a schema-driven reference model"])
p("C16","Generated Rust code compiles and is wire-compatible with generated Go",
 "For any such schema the Rust code generated by the plugins compiles, and messages encoded by generated Go code decode in generated Rust to the same field values and back, provided all their sub-messages are present. Both write the same bytes for the same message apart from the order of map entries, the privacy option only changes visibility, and an error-marked message is decoded as that error.",
 ["programs","inputs"],"all schemas of the supported kinds and all values of their messages; three privacy settings",
 "No test compiles generated Rust code or exchanges data with it (repeated scalars and most maps did not compile at the pinned commit).",
 ["generator/rust/structs.go","generator/rust/generator.go","generator/rust/imports.go","generator/rust/templates/encode.templ","generator/rust/templates/decode.templ","generator/rust/templates/encodeMap.templ","generator/rust/templates/decodeMap.templ","v2/generator/rust/structs.go","v2/generator/rust/templates/encode.templ","v2/generator/rust/templates/decode.templ"],
 [("field classification and kind lookup","generator/rust/structs.go"),("encode/decode templates","generator/rust/templates")],["rustc result, transcoded bytes against a schema-driven reference model"])
p("C17","Generated decoders survive hostile bytes within bounded memory",
 "Given any byte string, the decode function generated for any message (Go v1, Go v2, Rust) returns a message or an error: it does not panic, and its memory use is bounded by a multiple of the input size whatever element counts the input claims. A success implies that every field was read from a complete, correctly typed item, so that re-encoding the message and decoding it again gives an equal message.",
 ["inputs","programs"],"all byte strings for all generated messages",
 "Generated decoders are only run on well-formed data; element counts were used for allocation before any element was read.",
 ["generator/golang/templates/decode.templ","generator/golang/templates/decodeMap.templ","v2/generator/golang/templates/decode.templ","v2/generator/golang/templates/decodeMap.templ","generator/rust/templates/decode.templ","generator/rust/templates/decodeMap.templ"],
 [("error propagation from each field decode","decode templates"),("capacity taken from the wire","decode templates")],["panics, allocation deltas, decode/encode/decode comparison"])
p("C18","Code generation is deterministic, total and honours its options",
 "For any valid schema request each generator (Go, Rust, TypeScript, both versions), as a plugin or used repeatedly and concurrently as a library, produces exactly one output file per file to generate, with the same contents on every run, in any process and whatever else is generated along with it, and never crashes or hangs. Every message, enum and field of the requested files (nested ones included) appears in the output once with its declared name and type mapped the same way throughout, enum constants are numbered by position, and the outputs parse.",
 ["programs","configurations"],"all schemas, all plugin parameters, repeated runs",
 "No test runs a generator.",
 ["generator/golang/generator.go","generator/rust/generator.go","generator/typescript/generator.go","v2/generator/golang/generator.go","utils/utils.go","v2/utils/utils.go","protoc-gen-go-polyglot/main.go","protoc-gen-rs-polyglot/main.go"],
 [("template execution over descriptors","generator/*/generator.go"),("name mapping","utils")],["plugin stdout compared across runs, output parsed and inventoried"])
p("C19","Errors travel as their text and match only the same error",
 "An encoded error decodes to an error whose message is exactly the original text, whatever it contains (empty, long, multi-byte), in every implementation. In Go the decoded error matches an original error through the standard errors matching exactly when their messages are equal, also when wrapped, and decoding never confuses a transported error with a decoding failure.",
 ["inputs"],"all error texts, all pairs of errors",
 "Tests transport one constant error.",
 ["v2/error.go","encode.go","decode.go","v2/decode.go","v2/encode.go","encoder.rs","decoder.rs","encoder.ts","decoder.ts"],[("string-backed error type with message comparison","encode.go, v2/error.go")],["decoded error text, errors.Is over wrapped pairs"])
p("C20","Length prefixes are right at every size up to hundreds of megabytes",
 "Byte arrays, strings and error texts of every length, across each varint length-prefix boundary up to at least 2^28 bytes, encode with the correct prefix followed by exactly their data and decode to the same data. Header counts of slices and maps do so up to the 32-bit maximum.",
 ["inputs"],"all lengths from 0 past 2^28, all counts in 32 bits",
 "Tests use lengths below 4096; the Go v2 encoder produced corrupt output from 2^28 on at the pinned commit.",
 ENC+DEC,[("length varint in each variable-size encoder","v2/encode.go encodeBytes/encodeString/encodeError, encode.go, encoder.rs, encoder.ts")],["prefix bytes and digest of the data at boundary lengths"])
p("C21","Generated TypeScript code is wire-compatible with generated Go and Rust",
 "For any single-file schema of the supported kinds, the TypeScript generated by both versions passes the type checker, and its classes, run over the repository's own Encoder, Decoder and Kind, encode a message to exactly the bytes generated Go and Rust code writes (map entries in any order) and decode such bytes back to an equal message, wherever in a longer buffer it stands and leaving what follows it. Bytes that are no complete message of the type are rejected with one of the decoder's errors, and the input is never changed.",
 ["programs","inputs"],"all schemas of the supported kinds, all values of their messages and all byte strings",
 "No test compiles or runs generated TypeScript (decoders dropped map entries and read fields in another order than encoders wrote them at the pinned commit).",
 ["generator/typescript/structs.go","generator/typescript/generator.go","generator/typescript/templates/encode.templ","generator/typescript/templates/decode.templ","generator/typescript/templates/decodeMap.templ","generator/typescript/templates/structs.templ","v2/generator/typescript/structs.go","v2/generator/typescript/templates/encode.templ","v2/generator/typescript/templates/decode.templ","v2/generator/typescript/templates/decodeMap.templ","encoder.ts","decoder.ts","kind.ts"],
 [("field order shared by encode and decode templates","generator/typescript/templates"),("kind and function lookup","generator/typescript/structs.go")],["type checker result, encoded bytes and decoded properties against the schema-driven reference model"])
p("C22","Code added through generator hooks is part of every message",
 "What is given to the Go generators (v1 and v2) through CustomFields, CustomEncode and CustomDecode appears in the struct, encoder and decoder of every message, nested ones included: the added fields exist, what the encode hook writes stands in front of the message's own fields, the decode hook runs at the same place before them and its error ends decoding, nil messages stay a single nil marker, and the declared fields round-trip exactly as without hooks.",
 ["programs","inputs"],"all schemas of the supported kinds, all values, hooks that write one or several items",
 "No test sets a hook.",
 ["generator/golang/generator.go","generator/golang/templates/structs.templ","generator/golang/templates/encode.templ","generator/golang/templates/decode.templ","v2/generator/golang/generator.go","v2/generator/golang/templates/structs.templ","v2/generator/golang/templates/encode.templ","v2/generator/golang/templates/decode.templ"],
 [("hook expansion points","generator/golang/templates")],["compiler result, encoded bytes and decoded fields against the reference model extended by the hooks' items"])
p("C23","The C header describes the library it comes with",
 "A program written against polyglot.h, in its committed form or made from polyglot.h.in, compiles and links as C and as C++, with constants or with POLYGLOT_USE_C_ENUMS, and every declared function is there. Status and kind values have the documented numbers and the width the library reads and writes; every argument and result passes through its prototype unchanged over its whole range (sign, width and length included), and the byte-array structure lies in memory the way the library fills it.",
 ["programs","inputs","configurations"],"all values of all parameter and result types in every mode of the header",
 "The C test includes the header only in its default mode and passes one small value per function, so a narrower or wider parameter, another number, or a mode that lays values out differently passes it.",
 ["polyglot.h","polyglot.h.in","c_bindings/types.rs","c_bindings/encoder.rs","c_bindings/decoder.rs","kind.rs"],
 [("constant tables and the enum switch","polyglot.h, polyglot.h.in"),("prototypes against extern functions","polyglot.h, c_bindings/encoder.rs, c_bindings/decoder.rs"),("repr of status and buffer","c_bindings/types.rs")],["values seen by a compiled C or C++ program against what it passed and the documented bytes, undefined-behaviour sanitizer"])
p("C24","Use leaves no memory, goroutines, files or handles behind",
 "However many different values are encoded, decoded or fail to decode, by the libraries (Go v1 and v2 with their pools, Rust, C, TypeScript) or by generated code (Go, Rust, TypeScript), from one thread or many, memory in use does not grow with the number of operations once buffers, decoders and results are dropped, returned or freed, and no goroutine stays behind. A decoded value keeps alive memory in proportion to its own size, however large the input it came from (the engine's stack traces of TypeScript errors aside). Generators used again and again hold on to no earlier request and leave no temporary files, open files or goroutines.",
 ["histories","inputs","schedules"],"any number of operations with values that never repeat, of every kind and size, in every order of taking, returning and dropping",
 "Tests run each operation a few times on the same values and look at results, not at what stays alive: a cache, a registry, an excess capacity or a missing release is invisible to them and ends a long-running service.",
 ["decode.go","decoder.go","buffer.go","v2/decode.go","v2/buffer.go","v2/pool.go","decoder.rs","encoder.rs","c_bindings/decoder.rs","c_bindings/encoder.rs","decoder.ts","encoder.ts","generator/golang/generator.go","generator/rust/generator.go","generator/typescript/generator.go"],
 [("values made by decoders","decode.go, v2/decode.go, decoder.rs, decoder.ts"),("what is kept in pools","decoder.go, v2/pool.go"),("state of generators","generator/*/generator.go, v2/generator/*/generator.go")],["live heap after collection between stretches of use (Go, TypeScript), live bytes of the counting allocator (Rust, C), goroutine and file counts"])
p("C25","Generated messages can be used from many threads at once",
 "For any schema, generated Go (v1 and v2, with or without generator hooks) and Rust code is free of data races when any number of threads decode the same input bytes and encode the same message objects, each into values and buffers of its own, fresh ones or ones used before, whole messages and truncated ones, of one type or of many. Every call gives what it gives alone, and the shared inputs and messages stay as they were.",
 ["schedules","inputs","programs"],"all interleavings of decode and encode of all messages of all schemas",
 "The repository's tests of generated code run one message at a time; state shared through the package, the pools behind Decode or the messages themselves shows only when several threads meet.",
 ["generator/golang/templates/decode.templ","generator/golang/templates/encode.templ","v2/generator/golang/templates/decode.templ","v2/generator/golang/templates/encode.templ","generator/golang/structs.go","decoder.go","v2/decoder.go","generator/rust/templates"],
 [("pooled decoder of generated Decode","generator/golang/templates/decode.templ, decoder.go"),("per-call state of generated code","v2/generator/golang/templates")],["race detector; results of every thread against those of the same calls alone"])
p("C26","Generated messages can follow one another in one buffer",
 "For any schema, any sequence of messages of any types, mixed with items and bytes the caller writes itself, can be written into one buffer: generated Go (v1 and v2, with or without generator hooks), Rust (one cursor) and TypeScript append each message exactly as it is encoded alone, leave everything before it as it was, and end up right behind it, the first time and whenever the buffer is reset and used again. What was written can be read in the same order: decoding where a message begins gives that message whatever follows it, and takes exactly its bytes, so that the Rust cursor stands, and the remaining TypeScript buffer begins, where the next part does.",
 ["histories","inputs","programs"],"all sequences of messages of all schemas with anything in between",
 "The repository's tests encode one message into an empty buffer and decode it from exactly its own bytes; a frame header before it, a message after it or a second message in the buffer never occurs.",
 ["generator/golang/templates/encode.templ","generator/golang/templates/decode.templ","v2/generator/golang/templates/encode.templ","v2/generator/golang/templates/decode.templ","generator/rust/templates","v2/generator/rust/templates","generator/typescript/templates/encode.templ","v2/generator/typescript/templates/encode.templ","buffer.go","v2/buffer.go","encoder.rs","decoder.rs","encoder.ts","decoder.ts"],
 [("appending to a buffer with content","buffer.go, v2/buffer.go, encoder.rs, encoder.ts"),("position after a decoded message","decoder.rs, decoder.ts, generated decode")],["bytes and end of every part against its encoding in the reference model, messages read back in turn, cursor positions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
