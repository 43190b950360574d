#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Run by hand after editing; the output is committed."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

B, S = "blake2b/src", "blake2s/src"
both = lambda *fs: [f"{d}/{f}" for d in (B, S) for f in fs]

p("C01", "One-shot digests conform to the BLAKE2 specification",
  "For every message and every legal combination of parameters (digest length, key, salt, personalization, fanout, max depth, max leaf length, node offset, node depth, inner hash length, last-node flag), hashing the message all at once with BLAKE2b or BLAKE2s yields exactly the digest that RFC 7693 and the BLAKE2 parameter-block specification define, truncated to the chosen length. The convenience functions that take only a message yield the digest for default parameters.",
  ["inputs"], "every byte string and every legal assignment of the eleven parameters, for BLAKE2b and BLAKE2s",
  "The repository checks known answers of at most 256 bytes with a fixed key, and one vector with all parameters set; it reaches a handful of points of an unbounded message space times a huge parameter space.",
  both("lib.rs", "guts.rs", "portable.rs", "sse41.rs", "avx2.rs"),
  [("parameter block encoding", "Params::to_words in blake2{b,s}/src/lib.rs"), ("one-shot path and keyed fallback", "Params::hash"), ("compression loop with partial final block", "compress1_loop in portable.rs, sse41.rs, avx2.rs; guts::final_block")],
  observe=["Params::hash", "blake2b()", "blake2s()"])

p("C02", "Incremental hashing equals one-shot hashing over any call history",
  "However a message is fed to an incremental BLAKE2b or BLAKE2s state (any sequence of chunks of any size including empty ones, through the update method or any writer-trait method), every finalization returns the specified digest of exactly the bytes fed so far under the state's parameters. Finalizing never changes the state, so it can be repeated and followed by more input, and a clone taken at any point evolves independently of the original. The last-node flag may be changed at any moment before a finalization, and the value in force at that finalization is the one that counts.",
  ["histories", "inputs"], "every finite sequence of update / write / write_all / write_vectored / flush / finalize / clone / set_last_node calls with every chunking, keyed or not",
  "Existing tests feed a few fixed chunk sizes of one painted buffer with at most one finalize at the end; they never interleave clones, repeated finalizes, flag changes and writer calls.",
  both("lib.rs"),
  [("buffer only compressed when more input is coming", "State::compress_buffer_if_possible, State::update"), ("finalize works on a copy of the words", "State::finalize"), ("writer adapter", "impl std::io::Write for State"), ("late last-node flag", "State::set_last_node")],
  state=[("buffered bytes", "input not yet compressed; always the last block", "State.buf/buflen"), ("chaining value and byte count", "what has been compressed", "State.words/count")],
  observe=["State::finalize"])

p("C03", "BLAKE2bp and BLAKE2sp one-shot digests match the tree definition",
  "For every message, key and digest length, the one-shot BLAKE2bp (BLAKE2sp) digest equals the one obtained by dealing the message's blocks round-robin to 4 (8) BLAKE2b (BLAKE2s) leaf nodes with the prescribed tree parameters and last-leaf flag, and hashing the concatenated full-length leaf digests in a root node marked last. With a key, every leaf absorbs the key block and the root does not.",
  ["inputs"], "every message, every key of 0 up to the maximum length, every digest length",
  "The test vectors stop at 255 bytes (no BLAKE2bp vector has more than two blocks in one leaf) and the in-crate reference is compared up to 21 blocks with default parameters, sharing the compression code under test.",
  [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"] + both("many.rs", "guts.rs"),
  [("leaf and root parameter words", "blake2{bp,sp}::Params::to_words"), ("strided parallel leaf hashing", "Params::hash with Stride::Parallel, many::compress_many"), ("root hashing", "finalize_root_words")],
  observe=["blake2bp::Params::hash", "blake2sp::Params::hash", "blake2bp()", "blake2sp()"])

p("C04", "BLAKE2bp/BLAKE2sp incremental hashing equals one-shot for any history",
  "However a message is fed to an incremental BLAKE2bp or BLAKE2sp state, through any sequence of update or writer calls of any sizes, every finalization returns the specified digest of exactly the bytes fed so far. Finalizing is repeatable and non-destructive, and clones evolve independently.",
  ["histories", "inputs"], "every finite sequence of update / write / finalize / clone calls with every chunking, keyed or not",
  "The buffering has separate branches for one or two super-blocks in the buffer that depend on the remaining input length; the tests reach them with a single split point of one buffer.",
  [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("double-width buffer: one or two compressions depending on what is coming", "State::update"), ("finalization on copies of the leaves", "State::finalize")],
  state=[("buffer of up to two super-blocks", "input not yet dealt to leaves", "State.buf/buf_len"), ("per-leaf count", "bytes already compressed by each leaf", "State.count")],
  observe=["blake2bp::State::finalize", "blake2sp::State::finalize"])

p("C05", "Batch hashing of many inputs equals hashing each one alone",
  "Hashing any number of jobs as a batch, in any order, with any mix of input lengths (including empty) and per-job parameters, gives each job exactly the digest that hashing that input alone with those parameters gives, whichever way the jobs are distributed over batches. Including a job that has already run in a later batch has no effect on it or on the others, and only the jobs the caller's iterator yields before it first ends are run.",
  ["inputs", "histories"], "every list of (parameters, input) jobs of every length, every partition into batches, every repetition of jobs, every iterator shape",
  "Existing tests and fuzz targets use at most twice the SIMD degree jobs with inputs of at most three blocks; job eviction and refill depend on the whole sequence of lengths.",
  both("many.rs", "guts.rs", "sse41.rs", "avx2.rs"),
  [("job refill and eviction", "many::fill_jobs_vec, evict_finished, compress_many"), ("key block precompressed when a job is created", "HashManyJob::new"), ("finished flag", "hash_many filter"), ("N-way compression up to the shortest job", "compress2_loop / compress4_loop / compress8_loop")],
  observe=["many::hash_many", "HashManyJob::to_hash"])

p("C06", "Batch updating of many states equals updating each one alone",
  "Feeding inputs to any collection of incremental states as a batch leaves every state exactly as feeding its own input to it individually would: all later digests and byte counts agree. This holds for any number of states, any mix of parameters, buffered amounts and input lengths, and when batch updates, individual updates, clones, flag changes and finalizations are interleaved in any order.",
  ["histories", "inputs"], "every history over any set of states that mixes update_many with the other operations",
  "Existing tests run two batches over fresh states with inputs that are whole blocks or at most three blocks; they do not mix batch and single updates or vary the buffered amount per state.",
  both("many.rs", "lib.rs"),
  [("buffer completion before batching, last block kept back", "update_many closure"), ("count bumped when the job is made", "update_many"), ("job refill and eviction", "compress_many")],
  observe=["many::update_many", "State::finalize", "State::count"])

p("C07", "All implementations and build configurations agree",
  "The portable, SSE4.1 and AVX2 code paths, selected at run time or at build time, with or without the standard library, with any Cargo feature and any optimization or assertion level, produce identical results for every sequence of operations. The reported parallelism degree is at least one, never exceeds the published maximum degree, and never changes any result.",
  ["configurations", "inputs", "histories"], "every input and history, times every selectable implementation and build configuration on x86_64, including mixing portable and SIMD objects in one batch",
  "Each configuration only runs the same fixed vectors; the SSE4.1 and no_std paths are never compared with the AVX2 path on inputs of realistic size or on mixed batches.",
  both("guts.rs", "portable.rs", "sse41.rs", "avx2.rs", "many.rs"),
  [("run-time and build-time selection", "guts::Implementation::detect"), ("three compression implementations", "portable.rs, sse41.rs, avx2.rs"), ("uninline_portable feature", "blake2b/src/portable.rs")],
  observe=["every digest and count", "many::degree", "benchmarks::force_portable"])

p("C08", "The reported byte count is exact",
  "For every incremental state (BLAKE2b, BLAKE2s, BLAKE2bp, BLAKE2sp), the reported count equals exactly the total number of message bytes fed to it so far by any route, never including key material and never changed by finalizing, cloning, flushing or flag changes.",
  ["histories", "inputs"], "every history of every state kind, keyed or not, of any total length",
  "Existing tests read the count in a handful of places after whole-buffer updates; none checks it against mixed histories, keyed parallel states or totals beyond a word.",
  both("lib.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("key block subtracted", "State::count"), ("per-leaf count scaled", "blake2{bp,sp}::State::count"), ("batch updates bump the count", "many::update_many")],
  observe=["State::count"], hook="verif::advance_count* for totals that cannot be fed for real")

p("C09", "Very long inputs are hashed correctly",
  "Digests and counts stay correct when the number of bytes hashed crosses any boundary of the internal byte counter (for example 2^32 bytes for BLAKE2s, 2^64 for BLAKE2b, per leaf in the parallel variants) or of a machine-word length, on every implementation, for single and batch interfaces, and for single calls longer than 4 GiB.",
  ["inputs", "histories"], "every message length up to the algorithm's limit; every position of the counter boundary relative to blocks, chunks, lanes and batch members",
  "Unit tests cannot feed 2^32 or 2^64 bytes; three fixed counter values are tested against the crate's own portable code on the internal functions only.",
  both("guts.rs", "portable.rs", "sse41.rs", "avx2.rs", "lib.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("two-word counter", "guts::count_low, count_high, assemble_count"), ("per-lane carry in the N-way loops", "compress2_loop / compress4_loop / compress8_loop count handling")],
  observe=["digests", "State::count"], hook="verif::advance_count, advance_count_blake2bp/sp, advance_count_job")

p("C10", "The parameter domain is enforced and setters are pure overwrites",
  "Each parameter setter accepts exactly its documented range, records exactly the value given, and panics outside that range. The digest depends only on the last value given to each parameter and not on the order or number of setter calls: a shorter key, salt or personalization fully replaces a longer one, missing salt and personalization bytes count as zero, and an empty key, salt or personalization is the same as none. Building states or hashing never changes a parameter set, so it can be cloned and reused.",
  ["inputs", "histories"], "every sequence of setter calls with every argument, legal or not, interleaved with uses of the parameter set",
  "Existing tests set each parameter once, in one order, and only with legal values.",
  both("lib.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("range asserts", "Params setters"), ("zero fill before copy", "Params::key, salt, personal")],
  observe=["Params setters", "digests"])

p("C11", "Hash values convert and compare faithfully",
  "A hash value exposes exactly the requested number of digest bytes, its hexadecimal form is the lowercase two-digits-per-byte rendering of those bytes, and its byte-slice and full-array views agree with them. Two hash values, or a hash value and a byte slice, are equal if and only if they have the same length and the same bytes. A hash value built from a full-length array has exactly those bytes.",
  ["inputs"], "every digest content and length, every pair differing in any single bit, length or position, and every byte slice",
  "Existing tests compare a few equal or entirely different full-length hashes.",
  both("lib.rs"),
  [("length-limited view", "Hash::as_bytes"), ("hex table", "bytes_to_hex"), ("equality", "PartialEq for Hash, PartialEq<[u8]> for Hash"), ("conversions", "From<[u8; OUTBYTES]>, AsRef<[u8]>")],
  observe=["Hash::as_bytes", "Hash::to_hex", "Hash::as_array", "Hash equality"])

p("C12", "Debug output never reveals key bytes or chaining state",
  "The debug rendering of parameters, states and batch jobs is a function of public facts only (lengths, counts, flags and non-secret parameters). Two objects that differ only in key bytes of equal length, in message content of equal length, or in their internal chaining state print identically.",
  ["inputs", "histories"], "every pair of keys and of messages of equal lengths, every parameter set and history shape, for every printable public type that holds secrets, in plain and pretty format",
  "Nothing in the test suite looks at debug output, and a leak is a relation between two executions that no example-based test states.",
  both("lib.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("hand-written Debug impls that skip secrets", "impl fmt::Debug for Params, State, HashManyJob")],
  observe=["format!(\"{:?}\")", "format!(\"{:#?}\")"])

p("C13", "No use of the safe API can cause undefined behaviour",
  "For every sequence of safe API calls with inputs of any length, alignment and position in memory, on every implementation, the libraries never read or write outside the caller's buffers or their own objects, never use uninitialized or misaligned data improperly, and never otherwise execute undefined behaviour.",
  ["inputs", "histories", "configurations"], "every legal call history with exact-size buffers at any alignment, on the portable, SSE4.1 and AVX2 paths",
  "An out-of-bounds SIMD load usually returns the right digest, so functional tests pass; no sanitizer or interpreter is part of the suite.",
  both("sse41.rs", "avx2.rs", "guts.rs", "many.rs", "portable.rs"),
  [("unsafe unaligned vector loads bounded by offset arithmetic", "sse41.rs, avx2.rs load/transpose functions and loops"), ("final block copied to a padded buffer", "guts::final_block"), ("unsafe dispatch guarded by CPU detection", "guts::Implementation::compress*_loop")],
  observe=["AddressSanitizer reports", "Miri reports"])

p("C14", "The command-line tool prints the right digests",
  "For every combination of supported flags, the tool prints for each input the lowercase hexadecimal digest that the specification defines for that input's bytes and those parameters, whether the bytes come from standard input, regular files or memory-mapped files and however the operating system splits the reads. A single input prints the digest alone; several inputs print one line each, digest then path, in argument order; and it exits with success.",
  ["inputs", "configurations"], "every flag combination, every input content and length, every number and order of files, every chunking of reads",
  "The suite runs the tool on a 6-byte input and a few vectors, one input at a time except once, always with whole-buffer reads.",
  ["blake2_bin/src/main.rs"],
  [("flag to parameter mapping", "make_params"), ("read loop", "read_write_all"), ("mmap path", "mmap_file, hash_file"), ("output formatting", "main")],
  observe=["stdout", "exit status"])

p("C15", "The command-line tool fails safely and never prints a wrong digest",
  "Illegal, unsupported or contradictory flags make the tool exit with a nonzero status without printing any digest. When an input cannot be opened, mapped or read to its end, the tool prints no digest for that input, reports it on standard error and exits nonzero, while every other input still gets its correct line. If its output cannot be written, it exits nonzero. Interrupted and short reads are retried transparently and never change a digest.",
  ["fault_sequences", "inputs"], "every sequence of injected read, open and map faults over every list of inputs; every illegal flag combination",
  "The suite injects no faults at all and checks two flag conflicts.",
  ["blake2_bin/src/main.rs"],
  [("interrupted reads retried, other errors returned", "read_write_all"), ("per-input error handling and failure flag", "main loop"), ("unsupported flag rejection", "make_params bail!"), ("mmap length check", "mmap_file")],
  observe=["stdout", "stderr", "exit status"])

p("C16", "Comparing hashes takes data-independent time",
  "Comparing two hash values of the same length, or a hash value with a byte slice of the same length, performs a sequence of branches and memory accesses that does not depend on the bytes compared: not on whether they are equal, nor on where they first differ.",
  ["inputs"], "every pair of digests of the same length, for every length",
  "Functional tests cannot observe timing: an early-exit comparison returns the same booleans.",
  both("lib.rs"),
  [("constant_time_eq", "PartialEq for Hash, PartialEq<[u8]> for Hash")],
  observe=["secret-dependent branches or addresses reported by memcheck", "executed instruction counts"])

p("C17", "Objects are isolated from each other and across threads",
  "The result of operations on a parameter set, state or job depends only on the operations applied to that object: interleaving operations on any number of other objects of any kind, on the same thread or concurrently on other threads, never changes it. Objects may be moved between threads at any point of their history.",
  ["schedules", "histories"], "every interleaving of histories over several objects, on one thread or many, including moves between threads and first use racing on several threads",
  "Every existing test drives one object, or one batch, from one thread.",
  both("lib.rs", "many.rs", "guts.rs"),
  [("no shared mutable state; detection is pure", "guts::Implementation::detect"), ("all state held by value", "State, HashManyJob, Params")],
  observe=["digests and counts", "Miri data race reports"])

p("C18", "Results do not depend on byte order or pointer width",
  "On big-endian and little-endian targets and on 32-bit and 64-bit targets, every digest, hexadecimal form and byte count is the specified one for every input, parameter set and history.",
  ["configurations", "inputs", "histories"], "every input, parameter set and history on every combination of endianness and pointer width",
  "The suite runs only on little-endian 64-bit x86; byte-order mistakes are invisible there.",
  both("lib.rs", "portable.rs", "guts.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("explicit little-endian conversions", "Params::to_words, state_words_to_bytes, portable::compress_block, finalize_root_words"), ("width-independent counts", "Count type, count_low, count_high")],
  observe=["digests and counts under Miri cross-interpretation"])

p("C19", "Legal use never panics, in any build profile",
  "No sequence of documented-legal calls ever panics, aborts or overflows, including in builds with debug assertions and arithmetic overflow checks: empty inputs, empty batches, zero-length writes, repeated finalization and re-run jobs are all accepted. Reading a batch job's digest before it has run, and asking a short hash for its full-length array, are the only documented misuses and they panic only in debug builds.",
  ["histories", "inputs", "configurations"], "every legal call history in debug and release builds",
  "The internal assertions only fire on particular combinations of buffered amount, input length and batch shape, of which the tests visit a few.",
  both("lib.rs", "guts.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("input_debug_asserts", "guts.rs"), ("misuse assertions", "HashManyJob::to_hash, Hash::as_array"), ("wrapping arithmetic", "State::update, count"), ("buffer capacity assertion", "blake2{bp,sp}::State::update")],
  observe=["panics"])

p("C20", "Control flow and memory access do not depend on key and message bytes",
  "Which instructions execute and which memory addresses are accessed while keys are set, states are built, fed, cloned and finalized, and batches are run depends only on public facts (lengths, alignment, parameters other than the key, the shape of the history), never on the values of key bytes or message bytes, on every implementation. So a MAC computed with this library does not leak its key through timing or cache effects of branches or table lookups.",
  ["inputs", "histories", "configurations"], "every key and message content, for every history, on the portable, SSE4.1 and AVX2 implementations",
  "Functional tests cannot see it: an implementation that skips zero words or looks bytes up in tables gives the same digests.",
  both("lib.rs", "portable.rs", "sse41.rs", "avx2.rs", "guts.rs", "many.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("only additions, rotations and xors on the words; permutation by constant tables", "compress functions in portable.rs, sse41.rs, avx2.rs"), ("key copied whole into its block", "Params::key, State::with_params")],
  observe=["secret-dependent branches or addresses reported by memcheck"])

p("C21", "Hashing needs no heap and only a bounded stack",
  "No call of the libraries allocates heap memory, with or without the standard library, and the stack each call needs is bounded by a constant: neither depends on the parameters, the length or position of inputs, the number of calls made before, or the number of jobs or states in a batch. This covers parameter sets, states, updates, writer calls, finalization, clones, batches, hash values and their conversions and comparisons, and debug output into a given formatter. (Calls that panic are excepted.)",
  ["inputs", "histories", "configurations"], "every legal call history, with batches and inputs of every size, in builds with and without the standard library",
  "The test suite runs with an ordinary heap and large stacks, so a hidden allocation or a recursion that grows with the input passes it; callers in kernels, firmware, signal handlers or no_std programs without an allocator would fail.",
  both("lib.rs", "many.rs", "guts.rs") + [f"{B}/blake2bp.rs", f"{S}/blake2sp.rs"],
  [("fixed-capacity job and digest vectors", "many::JobsVec, Hash::to_hex (arrayvec)"), ("iteration, no recursion, over blocks and jobs", "many::compress_many, State::update, compress loops")],
  observe=["calls of the global allocator", "completion on a small stack"])

p("C22", "The command-line tool works in bounded memory",
  "Without memory mapping, the tool hashes inputs of any length and any number of inputs, from standard input or files, in an amount of memory and with a number of open files that are bounded by a constant (besides its own arguments): its output and status are the same when memory is limited to far less than the inputs and only a few files may be open.",
  ["inputs", "configurations"], "every list of inputs of every length, with every legal combination of flags except memory mapping, under resource limits",
  "The tests hash inputs of a few bytes, one at a time, so a tool that reads whole files, or keeps what it has read or opened until it ends, passes them.",
  ["blake2_bin/src/main.rs"],
  [("streaming with a fixed buffer", "read_write_all"), ("each file is closed before the next is opened", "hash_file, main")],
  observe=["standard output and exit status under RLIMIT_DATA and RLIMIT_NOFILE"])

p("C23", "The bundled C implementation computes the specified digests",
  "The C implementation of BLAKE2b, BLAKE2bp and BLAKE2sp that the repository bundles to measure itself against, called through its Rust wrapper, returns for every input, of every length, content and alignment, the unkeyed full-length digest that the BLAKE2 specification defines (the one the Rust crates return), and reads nothing but the input, writes nothing but the digest, and executes no undefined behaviour.",
  ["inputs"], "every input to each of the three functions",
  "Its only test hashes inputs of at most 255 bytes: fewer than 2 blocks, no whole stripe of blake2bp or blake2sp, never a length or counter that matters.",
  ["benches/blake2-avx2-sneves/src/lib.rs", "benches/blake2-avx2-sneves/blake2-avx2/blake2b.c", "benches/blake2-avx2-sneves/blake2-avx2/blake2bp.c", "benches/blake2-avx2-sneves/blake2-avx2/blake2sp.c"],
  [("wrappers", "blake2b, blake2bp, blake2sp in src/lib.rs"), ("message loops and tails", "blake2b.c, blake2bp.c, blake2sp.c")],
  observe=["digests", "memory faults, traps and memcheck reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
