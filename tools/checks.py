"""What each check runs: variants of the build and scale of the generated counts."""
DEADLINE = dict(quick=420, thorough=3000)

BOTH = dict(quick=[("hw", 1.0), ("sw", 0.5)], thorough=[("hw", 1.0), ("sw", 0.7)])
HW = dict(quick=[("hw", 1.0)], thorough=[("hw", 1.0)])
ALLV = dict(quick=[("hw", 1.0), ("sw", 0.6), ("p32", 0.4)], thorough=[("hw", 1.0), ("sw", 0.7), ("p32", 0.7)])
# "nocpu": hardware support compiled in, processor without it
def with_nocpu(plan, k):
    return dict(quick=plan["quick"] + [("nocpu", k)], thorough=plan["thorough"] + [("nocpu", k)])


CHECKS = {}


def c(id, plan, technique, rule, level="exploration", note="", **kw):
    CHECKS[id] = dict(plan=plan, rule=rule, technique=technique, level=level, note=note, **kw)


REF = "the reference implementations of harness/refs.ml, written from the standards, agree with published vectors (tools/selftest of the references)"

c("C01", with_nocpu(BOTH, 0.2), "property-based testing against reference AES/DES/3DES/Blowfish written from the standards, plus inverse law",
  "a case is non-trivial when at least one block was transformed and compared; distinct by its sequence of generated choices",
  note="Random and structured keys and blocks (all key lengths, one-hot, sparse, repeated), random offsets, in place and not, several calls per object; both AES implementations.",
  assumptions=[REF])
c("C02", BOTH, "property-based testing against textbook mode definitions over reference and caller-defined ciphers; solved IVs for counter carries; counter exhaustion",
  "non-trivial: the message has at least two units, or the counter carries or is exhausted",
  note="All modes and feedback sizes, random chunking; caller-defined toy ciphers with block sizes 1..40; exhaustion of 1-, 2- and 3-byte counters.",
  assumptions=[REF])
c("C03", BOTH, "property-based testing against reference ARCfour/ChaCha20 keystreams, with counters set next to carries",
  "non-trivial: at least one byte of keystream compared and the stream cut into pieces or past its first block", assumptions=[REF],
  note="Initial counters next to 2^32 and 2^64 carries, long streams, random cuts and offsets.")
c("C04", BOTH, "property-based testing of pad/strip against an enumerative model of well-formed blocks; padded ciphers against reference",
  "non-trivial: a block was stripped or a padded message compared", assumptions=[REF],
  note="Malformed blocks generated by structured corruption of well-formed ones; block sizes 1..255.")
c("C05", BOTH, "stateful model-based testing: random histories of put/get/flush/finish against a byte-stream model",
  "non-trivial: the history has at least two puts with data and one read",
  note="Every transform kind; model tracks pending output exactly, including available_output and End_of_file; buffer growth histories.", assumptions=[REF])
c("C06", BOTH, "property-based testing: random cuts and positions against one-shot reference digests (model-based histories)",
  "non-trivial: the message was fed in at least two pieces", assumptions=[REF],
  note="Every hash and MAC constructor; all two-piece cuts of short messages, random cuts of long ones.")
c("C07", BOTH, "differential property-based testing against independent reference hash implementations",
  "non-trivial: a digest of a generated message was compared", assumptions=[REF],
  note="Dense lengths 0..300 and block boundaries for every hash and size; BLAKE3 trees; messages beyond 2^29 bytes (quick) and 2^32 bytes (thorough).")
c("C08", BOTH, "differential property-based testing against reference MACs",
  "non-trivial: a tag over generated key and message was compared", assumptions=[REF],
  note="Key lengths stratified around the block size, IV and padding options, caller-defined ciphers.")
c("C09", with_nocpu(ALLV, 0.15), "differential property-based testing against reference AEADs; solved IVs for GCM counter wrap; crafted Poly1305 accumulators",
  "non-trivial: ciphertext and tag of generated inputs compared", assumptions=[REF],
  note="GCM IVs inverted through GHASH so that the 32-bit counter wraps; messages solved so that Poly1305 limbs sit at reduction boundaries; AES-NI/PCLMUL, portable, 32-bit Poly1305.")
c("C10", with_nocpu(BOTH, 0.3), "property-based testing: structured tampering of authenticated ciphertexts",
  "non-trivial: a modified ciphertext, tag, header, IV or key was submitted",
  note="All single-bit flips of whole short messages; truncations, extensions, swaps, other headers and keys; all AEADs and transform/hash combinations.")
c("C11", HW, "property-based testing of key equations and inverse laws against exact integer arithmetic (Zarith)",
  "non-trivial: a key was generated (or built) and used on generated messages",
  note="Sizes 32..300 stratified, a few of 512..2048; adversarial random sources; keys built elsewhere with either prime larger.")
c("C12", HW, "property-based testing of key equations, decryption and homomorphism against exact integer arithmetic",
  "non-trivial: a key was generated and messages were encrypted, added and decrypted", note="Sizes 32..160, some larger; sequences of additions; adversarial random sources.")
c("C13", HW, "property-based testing of the protocol against exact integer arithmetic; secret destruction observed in memory",
  "non-trivial: the protocol ran between two parties, or a key was derived", note="Generated and supplied parameters, all private lengths; derive_key against a reference.")
c("C14", HW, "property-based testing against exact integer arithmetic (Zarith), with structured operands",
  "non-trivial: operands of at least one byte", note="Operand and modulus lengths 0..80 bytes stratified, even and odd moduli, leading zeros, zero exponents.")
c("C15", HW, "property-based testing against a reference codec; grammar-based generation of well-formed and malformed text",
  "non-trivial: text of at least one character", note="All byte values in all positions of a group; blanks anywhere; random cuts and flushes.")
c("C16", HW, "property-based testing against a reference codec; grammar-based generation of well-formed and malformed text",
  "non-trivial: text of at least one character", note="All byte values in all digit positions; blanks anywhere; random cuts.")
c("C17", HW, "property-based testing against an independent inflate; generated deflate streams (stored/fixed/dynamic) and structured corruption; histories with flushes",
  "non-trivial: a stream of at least one byte was (de)compressed",
  note="harness/defl.ml has its own inflate and a generator of arbitrary valid streams.")
c("C18", BOTH, "property-based testing against reference keystreams, with random request histories",
  "non-trivial: at least two requests", note="Seeds of all lengths 0..80; requests of all sizes and offsets; long streams.", assumptions=[REF])
c("C19", HW, "fault injection: scripted short reads, end of file and getentropy failures against a model of the source",
  "non-trivial: the request needed more than one read, or the source ended", level="exploration",
  note="read() and getentropy() are wrapped at link time; device files in a scratch directory.",
  assumptions=["hardware_rng is exercised only where the processor has RDRAND"])
c("C20", with_nocpu(BOTH, 0.3), "non-interference testing: two runs differing only in secrets, whole reachable memory compared after wipe",
  "non-trivial: the memory of the two objects differed before the wipe",
  note="The object graph, custom blocks and their malloc'ed contexts are dumped; memory freed by wipe is inspected at free().",
  assumptions=["object layout of OCaml 4.14; compression objects not covered"])
c("C21", BOTH, "property-based testing of constructors over legal and illegal parameters",
  "every case is a constructor call with generated parameters; non-trivial: the parameters are illegal, or on the edge of legality",
  note="Every constructor; lengths 0..400 stratified.")
c("C22", dict(quick=[("hw", 1.0), ("sw", 0.5), ("san", 0.3), ("sanhw", 0.3)], thorough=[("hw", 1.0), ("sw", 0.5), ("san", 0.4), ("sanhw", 0.4)]),
  "property-based testing with guard pages and read-only buffers around every generated buffer; AddressSanitizer builds; illegal ranges",
  "non-trivial: a call with a buffer at the edge of accessible memory, or with an illegal range",
  note="Out-of-range reads and writes fault on inaccessible pages; bytes around the range compared; C code also built with -fsanitize=address,bounds.")
c("C23", with_nocpu(BOTH, 0.2), "schedule exploration: the same program with collections forced at generated points and dead memory poisoned, transcripts compared",
  "non-trivial: at least one collection ran inside the operation with poisoning on",
  note="Every allocation point of each constructor (word by word for short ones), random histories with compaction.")
c("C24", HW, "differential testing of builds: the same generated program on six build configurations, transcripts compared",
  "non-trivial: all builds produced a transcript of more than 20 bytes", peers=dict(quick=["sw", "byte", "p32", "nozlib", "nocpu"], thorough=["sw", "byte", "p32", "nozlib", "nocpu"]),
  note="AES-NI/PCLMUL vs portable C vs compiled in but absent from the processor, native vs bytecode, 64- vs 32-bit Poly1305, with and without zlib.")
c("C25", HW, "property-based testing with scripted short reads against one-shot results",
  "non-trivial: at least one byte in the channel", note="Files and pipes, partially read channels, short-read scripts.")
c("C26", HW, "stateful model-based testing of composed objects against sequential application",
  "non-trivial: at least one byte of input", note="All transform and hash kinds, nested compositions, flush.")
c("C27", BOTH, "property-based testing against byte-wise definitions",
  "non-trivial: at least one byte compared or xored", note="All alignments and lengths, single-bit differences everywhere, same-buffer xor.")
c("C28", HW, "metamorphic testing on instruction traces: single-stepped traces of pairs of calls with the same lengths compared",
  "non-trivial: both strings have the same positive length", note="Hash of all program counters; x86-64 trap flag.",
  assumptions=["x86-64; instruction sequence stands for time"])
c("C29", BOTH, "stateful testing: interleaved histories of several objects against each alone; inputs compared with copies",
  "non-trivial: at least two objects were live with interleaved operations, or inputs were re-checked", note="Same and mixed kinds, caller buffers overwritten after each call.", assumptions=[REF])
c("C30", HW, "property-based testing with scripted random sources: replay, perturbation and failure at generated requests",
  "non-trivial: the operation drew from its source and was repeated", note="Includes a link-time trap on the system generator.")
c("C31", HW, "property-based testing: the memory allocated by private-key operations scanned for words of the private key",
  "non-trivial: at least four 8-byte windows of the private key were looked for and the operation allocated memory",
  note="The part of the OCaml heap written by the operation is scanned at every byte position for the words of each secret number, in both byte orders. Memory of the multi-precision library itself is out of scope.",
  assumptions=["OCaml 4.14 minor heap; numbers below 2^64 not tracked"])
c("C32", dict(quick=[("hw", 1.0), ("sw", 0.4), ("nocpu", 0.3)], thorough=[("hw", 1.0), ("sw", 0.5), ("nocpu", 0.3)]), "property-based testing of generated object life cycles, memory and descriptors in use measured between rounds",
  "non-trivial: five rounds of 24 objects each were created, used as generated, dropped and collected, and the measures compared",
  note="Every constructor, dropped, wiped, finished, finished and wiped, or after an error; malloc statistics, live OCaml words and open descriptors after full collections.",
  assumptions=["growth below 16 bytes per object is not noticed"])
c("C33", dict(quick=[("hw", 1.0), ("sw", 0.5), ("nocpu", 0.3)], thorough=[("hw", 1.0), ("sw", 0.5), ("nocpu", 0.3)]), "fault injection: memory refused at generated requests of the library's C code and of zlib, outcome and aftermath compared with a run without faults",
  "non-trivial: at least one request was refused",
  note="The k-th, a range of, or all requests of an operation from the k-th on; then collections with dead memory poisoned, the same operation without faults, other live objects, and memory in use over repeated refusals.",
  assumptions=["requests made inside a garbage collection or larger than 32 KiB (the OCaml heap itself) are not refused"])

