# Writes ../MANIFEST.json.
import json,os
T={
"C01":("differential monitor: real encoders of five implementations against a reference wire model","Every executed encode-call sequence of the Go v1, Go v2, Rust, C and TypeScript encoders is compared byte for byte with an independent reference model. Trusts the reference model in harness/go/wire and the drivers; unexplored values remain."),
"C02":("cross-decoding monitor: every encoder's output through every decoder, values compared","Observed encodings of all five encoders are decoded by all five decoders and compared value by value with what was encoded. Sampled sequences plus all boundary values."),
"C03":("hostile-input monitor with crash, hang and panic observation; memcheck and a checking allocator underneath","Process death, panic, missing answer or memory error is observed directly. Inputs are generated (all truncations of all item kinds, malformed varints, mutations), not exhaustive."),
"C04":("online oracle over decode answers: reference decoder judges every success and failure","Each answer of each decoder is judged by the reference decoder; gray areas (overlong or overflowing varints, boolean bytes other than 0/1) are not judged."),
"C05":("online oracle: mismatched probes before every item, position observed by what decodes next","Every kind of item against every kind of probe in five implementations; read position is observed through later answers."),
"C06":("allocation monitor: bytes allocated per decode call against a bound in the input size","Go TotalAlloc, a counting Rust global allocator (also under the C API) and node heap statistics; bound constants are generous (see DESIGN)."),
"C07":("differential monitor over buffer histories: same calls into many buffers, canaries around caller storage","Every amount of spare room from 0 up around each item kind, all buffer origins; compared with the reference bytes."),
"C08":("online checker of a buffer specification (append-only log) over random histories, checkptr build","Model log compared after every step; Go pointer checks on in a second build."),
"C09":("ownership monitor: values re-read after sources are overwritten, freed or collected (clobberfree, checkptr)","Observes changes of values after mutation of everything they came from; five implementations for input ownership, Go for destinations."),
"C10":("online ownership registry over pool get/put under contention, race detector, injected collections","Exclusive ownership and clean hand-out are asserted at every get and put; schedules are sampled."),
"C11":("race detectors (Go -race, ThreadSanitizer, Miri) plus comparison with the sequential result per thread","Schedules are sampled with injected yields; Rust std is instrumented for ThreadSanitizer."),
"C12":("allocation and capacity-change monitor","testing.AllocsPerRun per operation and value; capacity changes counted during growth."),
"C13":("random valid C API histories over a checking allocator, memcheck and Miri","Heap misuse, leaks and content changes are observed by three independent monitors; histories are random."),
"C14":("status and canary monitor over C API calls","Status pre-set to stale values; every null combination, destination sizes around the right one, truncations."),
"C19":("differential monitor of transported error texts; errors.Is oracle in Go","Texts compared in five implementations; matching relation compared with text equality over wrapped pairs."),
"C20":("differential monitor with digests at boundary lengths up to past 2^28","Whole encodings compared by digest with the reference; all varint boundaries, sampled lengths between."),
"C15":("compile-and-run monitor of generated Go code against a schema-driven reference codec","Random schemas are generated, compiled and run; encoded bytes and decoded fields are compared with a reference codec written against the schema."),
"C16":("compile-and-run monitor of generated Rust code, transcoding with generated Go code","Same schemas and messages as C15 through generated Rust; bytes compared modulo map order."),
"C17":("hostile-input and allocation monitor on generated decoders","Panic, hang, allocation beyond the bound and unfaithful success are observed on generated Go v1, Go v2 and Rust decoders."),
"C18":("repeated-run monitor of generator output with an inventory oracle","Plugin outputs of repeated processes are compared; declared names are looked up in parsed output."),
"C21":("type-check-and-run monitor of generated TypeScript against a schema-driven reference codec","Generated TypeScript is checked by tsc, bundled with a runtime shim over the repository's Encoder and Decoder and run in node; bytes and values are compared with the reference codec. Trusts the shim in harness/ts/shim.ts, because the package does not export the functions the generated code imports (a known finding)."),
"C22":("compile-and-run monitor of Go code generated with hooks, against the reference codec extended by what the hooks write","Random schemas, three hook sets, both versions; same oracle as C15."),
"C23":("compile-and-run monitor of the C header in every mode, undefined-behaviour sanitizer","One program that uses every constant and prototype is compiled by gcc and clang as C and C++, with constants and enums, against both forms of the header; fixed boundary values and random values pass through every prototype."),
"C24":("live-memory monitor between stretches of use","Every API, pool, generated type and generator is used again and again with values that never repeat; live heap after collection (Go, node), live bytes of a counting allocator (Rust, C), goroutines, files and what small held values keep alive are compared between stretches."),
"C25":("race detector and per-thread comparison over generated code","Generated Go code is built with the race detector and many goroutines decode shared inputs and encode shared messages of random groups of types, each compared with what the same calls give alone; generated Rust likewise in threads."),
"C26":("sequence monitor over generated code against the reference model","Random sequences of messages and raw parts are written into one buffer and read in turn by generated Go, Rust and TypeScript; every part, its end and what was there before are compared with the encodings of the reference model."),
}
import sys
ids=[l for l in sorted(T) if os.path.exists(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"))]
have=set(open(os.path.join(os.path.dirname(__file__),"claimed.txt")).read().split())
m={"version":1,"setup_cmd":"./run.sh setup","checks":[],"not_applicable":[],
 "notes":"run.sh builds the monitor and every driver from /repo's working tree in a scratch directory on each run. No hooks in /repo: all observation points are public APIs, replaced allocators, sanitizer builds and process boundaries. Known findings: KNOWN_FINDINGS.md."}
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property":i,"reason":"check under construction"}); continue
    t,n=T[i]
    m["checks"].append({"property":i,"quick_cmd":"./run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+i,"technique":t,"level":"exploration","level_note":n})
json.dump(m,open(os.path.join(os.path.dirname(__file__),"..","MANIFEST.json"),"w"),indent=1)
