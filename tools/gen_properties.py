#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
M = "src/cryptokit.ml"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Block ciphers compute the standard permutation and its inverse",
  "For every key of a legal length and every block, the AES, DES, Triple-DES (two and three keys) and Blowfish block ciphers write exactly the block defined by the cipher's standard, and the decryption object writes the inverse. This holds at any valid source and destination offset, with source and destination in equal, different or overlapping places, repeatedly on the same object, in whatever order objects are created and used (including as the first ones of the process), and no byte outside the destination block changes.",
  ["inputs"], "all keys of all legal lengths, all blocks, all valid offsets, in-place, overlapping and out-of-place, all orders of creation",
  "The test suite has a handful of FIPS/NIST vectors at offset 0 with fixed keys; a table entry, round-key word, key length or offset that those vectors do not touch is never checked.",
  [M, "src/aesni.c", "src/rijndael-alg-fst.c", "src/d3des.c", "src/blowfish.c", "src/stubs-aes.c", "src/stubs-des.c", "src/stubs-blowfish.c"],
  [("Block.aes_encrypt/aes_decrypt and cooked keys", "src/cryptokit.ml, src/stubs-aes.c"), ("des/3des key schedules", "src/d3des.c"), ("blowfish key schedule", "src/blowfish.c")],
  ["Block.aes_encrypt, aes_decrypt, des_*, triple_des_*, blowfish_* #transform"])

p("C02", "Chaining modes follow their definitions for every message and IV",
  "ECB, CBC, CFB n, OFB n, CTR and CTR_N n over any block cipher (built-in or supplied by the caller), for every legal n, key, IV and message, produce exactly the output of the textbook definition of the mode, and decryption inverts encryption; so do the chaining objects of module Block used directly, in place or between buffers. Counters are big-endian, carry through all and only their n low bytes; the IV defaults to zeros, and is ignored in ECB mode. A message so long that a counter of fewer than 8 bytes (CTR_N n with n < 8, or CTR over a cipher with blocks shorter than 8 bytes) would return to its initial value is refused with Message_too_long instead of reusing keystream; every message of up to 2^(8n)-1 blocks is accepted.",
  ["inputs", "histories"], "all modes, chunk sizes n, keys, IVs (including all counter carries), messages of any length",
  "Tests use one IV and a short message per mode; carries beyond one byte, CFB/OFB with odd n, and late wrap-around need specific IVs or long histories.",
  [M], [("cbc_*, cfb_*, ofb, ctr, increment_counter, normalize_dir", "src/cryptokit.ml module Block / Cipher")],
  ["Cipher.aes/des/triple_des/blowfish with ~mode ~iv", "Block.cbc_encrypt ... Block.ctr over caller-defined ciphers"])

p("C03", "Stream ciphers generate the standard keystream at every position",
  "ARCfour and ChaCha20 xor their input with exactly the standard keystream, for every legal key length, IV (absent, 8 or 12 bytes) and initial counter, at every position of an arbitrarily long stream and however the data is cut into pieces. The 64-bit ChaCha20 counter carries from its low to its high half; with a 12-byte IV any initial counter that fits in 32 bits is accepted. Applying the cipher twice gives the input back.",
  ["inputs", "histories"], "all keys, IVs, counters, stream positions and chunkings",
  "Tests check the first bytes for a few keys; counter carries and mid-block continuation are not reached.",
  [M, "src/chacha20.c", "src/arcfour.c", "src/stubs-chacha20.c", "src/stubs-arcfour.c"],
  [("block counter and partial-block position", "src/chacha20.c"), ("x,y indices and permutation", "src/arcfour.c")],
  ["Stream.arcfour, Stream.chacha20 #transform", "Cipher.arcfour, Cipher.chacha20"])

p("C04", "Padding is unambiguous and padded ciphers round-trip",
  "For every block size (up to 255 bytes for the length scheme) and every number of used bytes, padding a block and stripping it gives back the number of used bytes; strip accepts exactly the blocks that pad can produce and raises Bad_padding on all others. A padded cipher encrypts a message of any length to the ciphertext of the message followed by one padding run, and padded decryption gives back exactly that message; it raises Bad_padding when the final block decrypts to a malformed block and Wrong_data_length when the input is empty or not a whole number of blocks.",
  ["inputs"], "all block contents, block sizes 1..255, message lengths, ciphers and modes",
  "Tests strip only well-formed padding of a few lengths; malformed blocks form the bulk of the input space.",
  [M], [("Padding.length, Padding._8000", "src/cryptokit.ml"), ("cipher_padded_encrypt/decrypt", "src/cryptokit.ml module Block")],
  ["Padding.length/_8000 #pad #strip", "Cipher.* ~pad"])

p("C05", "Transforms are faithful streams whatever the call history",
  "For every transform in the library, the concatenation of everything read through get_string, get_substring, get_char and get_byte depends only on the concatenation of the input (for the compressor: once decompressed; for multiline base64: apart from line breaks around flushes) and not on how the input is cut into put_substring, put_string, put_char and put_byte calls, when output is read, or where flushes succeed. available_output always equals the number of bytes the next get would return; reading consumes exactly what it returns, in order; get_char and get_byte raise End_of_file when nothing is available. A flush makes all output due so far available, and one that raises Wrong_data_length (input not a whole number of blocks) loses nothing.",
  ["histories", "inputs"], "all interleavings of put_*, get_*, flush, finish with arbitrary data",
  "Tests use transform_string almost exclusively: one put, one finish, one get.",
  [M], [("buffered_output: obuf/obeg/oend, ensure_capacity", "src/cryptokit.ml"), ("Block.cipher ibuf/used", "src/cryptokit.ml"), ("Stream.cipher, Zlib.compress/uncompress", "src/cryptokit.ml")],
  ["transform#put_*/get_*/flush/finish/available_output"],
  [dict(name="obuf[obeg..oend)", meaning="pending output", where="buffered_output"), dict(name="ibuf[0..used)", meaning="pending partial block", where="Block.cipher")])

p("C06", "Hashes and MACs depend only on the concatenated input",
  "For every hash and MAC, the result depends only on the parameters and on the concatenation of the data supplied, not on how it is cut into add_substring, add_string, add_char and add_byte calls nor on the position of the data in its buffer. hash_size is always the length of the result. hash_string gives the same value as incremental use.",
  ["histories", "inputs"], "all chunkings of messages of any length, for every hash and MAC constructor",
  "Tests call hash_string once per vector; partial-block buffering is exercised at very few cut points.",
  [M, "src/sha1.c", "src/sha256.c", "src/sha512.c", "src/keccak.c", "src/blake2.c", "src/blake3.c", "src/ripemd160.c", "src/siphash.c", "src/stubs-md5.c"],
  [("per-algorithm partial block buffers", "src/*.c"), ("Block.mac buffer/used", "src/cryptokit.ml")],
  ["Hash.* and MAC.* objects"])

p("C07", "Hash functions compute the standardized digest for every message",
  "Hash.sha1, sha224/256/384/512, sha2, sha3, keccak, ripemd160, md5, blake2b, blake2s and blake3 return the digest defined by their standard for every message, including every length around block and chunk boundaries and messages larger than 512 megabytes. For the hashes with selectable output size this holds for every legal size (for BLAKE3, outputs of any length).",
  ["inputs"], "all messages of all lengths, all output sizes",
  "Tests use short vectors; padding corner cases at most lengths, long messages, tree shapes of BLAKE3 and odd output sizes are not covered.",
  [M, "src/sha1.c", "src/sha256.c", "src/sha512.c", "src/keccak.c", "src/blake2.c", "src/blake3.c", "src/blake3_portable.c", "src/ripemd160.c", "src/stubs-md5.c"],
  [("compression functions, padding, length counters, BLAKE3 tree", "src/*.c")],
  ["Hash.*, hash_string"])

p("C08", "MACs compute the standardized tag for every key and message",
  "The HMAC family, AES-CMAC, the CBC-MACs (AES, DES, Triple-DES, DES with final Triple-DES, and those built over caller-defined ciphers), keyed BLAKE2b/BLAKE2s/BLAKE3 and SipHash (64 and 128 bits) return the value defined by their specification for every legal key (all lengths), IV, padding scheme and message. A CBC-MAC without padding raises Wrong_data_length when the message is not a whole number of blocks.",
  ["inputs"], "all keys and key lengths, IVs, paddings, messages and lengths",
  "Tests use a few RFC vectors: key lengths around the HMAC block size, messages at block boundaries and IV/pad options are barely sampled.",
  [M, "src/siphash.c", "src/blake2.c", "src/blake3.c"],
  [("HMAC functor", "src/cryptokit.ml"), ("Block.mac, mac_final_triple, cmac", "src/cryptokit.ml"), ("siphash padding/length byte", "src/siphash.c")],
  ["MAC.*, Block.mac, Block.mac_final_triple"])

p("C09", "AES-GCM and ChaCha20-Poly1305 compute the standard output and tag",
  "For every legal key, IV (any length for GCM; 8 or 12 bytes for ChaCha20-Poly1305), associated data and message of any lengths, encryption gives the ciphertext and 16-byte tag defined by the standard, and decryption gives the corresponding plaintext and the same tag, however the data is cut into pieces. In GCM only the low 32 bits of the counter block are incremented, modulo 2^32.",
  ["inputs", "histories"], "all keys, IVs and IV lengths, headers, messages, chunkings, including IVs whose counter block is about to wrap",
  "Tests use published vectors; counter wrap in GCM needs an IV solved for a given key, Poly1305 reductions need crafted accumulators.",
  [M, "src/ghash.c", "src/pclmul.c", "src/stubs-ghash.c", "src/poly1305-donna-64.h", "src/poly1305-donna.c", "src/stubs-poly1305.c"],
  [("aes_gcm_encrypt/decrypt, ghash_*, counter0", "src/cryptokit.ml module AEAD"), ("chapoly_*, poly1305_*", "src/cryptokit.ml module AEAD"), ("GHASH multiplication", "src/ghash.c, src/pclmul.c")],
  ["AEAD.aes_gcm, AEAD.chacha20_poly1305, auth_transform_string_detached"])

p("C10", "Authenticated decryption returns the message or nothing",
  "For every authenticated transform (AES-GCM, ChaCha20-Poly1305, transform-and-hash combinations), auth_check_transform_string applied to an unmodified output of auth_transform_string returns exactly the original message. If the ciphertext, tag, associated data, IV or key differs in any way it returns None, never data and never another outcome; input shorter than the tag raises Wrong_data_length.",
  ["inputs"], "all messages, and all modifications: bit flips, truncation, extension, swaps, header/IV/key changes",
  "Tests flip a few fixed positions at most; the set of modifications is unbounded.",
  [M], [("auth_check_transform_string, string_equal on the tag", "src/cryptokit.ml"), ("lengths block in GHASH/Poly1305", "src/cryptokit.ml")],
  ["auth_transform_string, auth_check_transform_string, auth_transform_string_detached"])

p("C11", "RSA keys are consistent and all operations invert each other",
  "RSA.new_key with any even size of at least 32 bits, any usable exponent and any random source returns a key whose modulus is the product of two distinct primes and has exactly the requested number of bits, with d, dp, dq and qinv satisfying their defining equations. For every message smaller than the modulus, encrypt and decrypt (both with and without CRT), and sign and unwrap_signature, are exact inverses and equal modular exponentiation, with results of the length of the modulus; a message not smaller than the modulus is refused with Message_too_long. This also holds for well-formed keys built elsewhere, whichever of the two primes is larger.",
  ["inputs"], "all key sizes, exponents, random sources, messages, including 0, 1, multiples of p or q, and short or zero-prefixed strings",
  "Tests use one fixed 512-bit key and one generated size.",
  [M, "src/cryptokitBignum.ml", "src/stubs-misc.c"],
  [("RSA module", "src/cryptokit.ml"), ("mod_power_CRT, to_bytes, of_bytes, random_prime", "src/cryptokitBignum.ml")],
  ["RSA.new_key, encrypt, decrypt, decrypt_CRT, sign, sign_CRT, unwrap_signature"])

p("C12", "Paillier decrypts what was encrypted and is additively homomorphic",
  "For every generated Paillier key and all messages smaller than the modulus n, decrypting an encryption gives the message (as a number), whatever random source was used for blinding. Decrypting the sum of any sequence of ciphertexts gives the sum of the messages modulo n. Generated keys have a modulus of exactly the requested size, the product of two distinct primes, and satisfy n2 = n*n, lambda = lcm(p-1,q-1) and mu = 1/lambda mod n.",
  ["inputs", "histories"], "all key sizes, messages in [0,n), random sources, sequences of additions",
  "Tests use one key size and two messages.",
  [M, "src/cryptokitBignum.ml"], [("Paillier module", "src/cryptokit.ml")],
  ["Paillier.new_key, encrypt, decrypt, add"])

p("C13", "Diffie-Hellman parties always agree on the same secret",
  "For all parameters (generated for any legal size and private length, or supplied) and all private secrets, both parties compute the same shared secret, equal to g^(ab) mod p, as a string of the length of p; messages are g^x mod p with the same length. Generated parameters have a prime p of exactly the requested size and 1 < g < p, and private secrets have exactly privlen bits. A private secret of 64 bits or more is destroyed by shared_secret; derive_key returns exactly numbytes bytes, the SHA-256 stream over diversification, secret and decimal counter from 1.",
  ["inputs"], "all parameter sizes, private lengths, random sources, derived lengths and diversifications",
  "Tests run the protocol once with fixed parameters.",
  [M, "src/cryptokitBignum.ml"], [("DH module", "src/cryptokit.ml"), ("random, to_bytes", "src/cryptokitBignum.ml")],
  ["DH.new_parameters, private_secret, message, shared_secret, derive_key"])

p("C14", "Modular arithmetic on strings is exact",
  "For all big-endian strings a, b and c with c > 0, mod_mult a b c is (a*b) mod c; if moreover a < c, mod_power a b c is (a^b) mod c. The result is a big-endian string of exactly the length of c.",
  ["inputs"], "all lengths and values, odd and even moduli, exponent 0, leading zero bytes, moduli of any byte length",
  "No test calls mod_power or mod_mult directly.",
  [M, "src/cryptokitBignum.ml"], [("mod_power, mod_mult", "src/cryptokit.ml"), ("to_bytes/of_bytes", "src/cryptokitBignum.ml")],
  ["mod_power, mod_mult"])

p("C15", "Base64 encodes canonically and decodes exactly its inputs",
  "For every input and every way of feeding it, the compact encoders output the RFC 4648 encoding (with or without '=' padding) and the multiline encoder the padded encoding cut into lines of at most 76 characters; decoding any of these, with blanks inserted anywhere, gives back the input. The decoder raises Bad_encoding on any character that is neither base 64, '=' nor blank, on data after '=', and on an encoding whose last group has a single character.",
  ["inputs", "histories"], "all byte strings, chunkings, blank insertions and corruptions",
  "Tests encode one sentence.",
  [M], [("Base64.encode, Base64.decode", "src/cryptokit.ml")],
  ["Base64.encode_multiline, encode_compact, encode_compact_pad, decode"])

p("C16", "Hexadecimal encoding round-trips and rejects everything else",
  "For every input, the encoder outputs two lowercase digits per byte, most significant first, and nothing else; the decoder accepts upper and lower case digits and blanks anywhere and gives back the bytes. It raises Bad_encoding on any other character and, at finish, on an odd number of digits.",
  ["inputs", "histories"], "all byte strings, chunkings, blanks, case choices, corruptions",
  "Tests encode one string.",
  [M], [("Hexa.encode, Hexa.decode", "src/cryptokit.ml")], ["Hexa.encode, Hexa.decode"])

p("C17", "Compression is lossless and decompression is strict",
  "For every input, level, header option and call history including flushes at any point, the compressor's output is a well-formed raw deflate or zlib stream for exactly that input, all input given before a flush can be recovered from the output available after it, and the decompressor applied to it gives the input back however it is cut. The decompressor handles every valid stream (stored, fixed and dynamic blocks, any expansion ratio) and raises Compression_error on malformed data, data in another container than the one announced (gzip, raw instead of zlib, preset dictionary), a wrong checksum or trailing garbage; on any strict prefix of a valid stream it raises Compression_error at the latest at finish.",
  ["inputs", "histories"], "all inputs, levels, flush histories, chunkings, generated deflate streams and corruptions",
  "Tests compress one short text in one piece.",
  [M, "src/stubs-zlib.c"], [("Zlib.compress/uncompress loops", "src/cryptokit.ml"), ("deflate/inflate stubs", "src/stubs-zlib.c")],
  ["Zlib.compress, Zlib.uncompress"])

p("C18", "Seeded generators produce exactly their keystream",
  "Random.pseudo_rng and Random.pseudo_rng_aes_ctr produce a byte stream that is a pure function of the seed: the ChaCha20 (first 32 seed bytes, or the 16-byte key variant for a 16-byte seed, zero-extended in between) respectively AES-128 counter keystream. The stream is the same however it is cut into requests, writes go exactly to the requested range of the buffer, and a seed shorter than 16 bytes is refused with Seed_too_short.",
  ["inputs", "histories"], "all seeds of length 16 and more, all sequences of request sizes and offsets",
  "Tests draw one buffer per generator and check only statistical plausibility.",
  [M, "src/chacha20.c", "src/stubs-chacha20.c"], [("pseudo_rng, pseudo_rng_aes_ctr", "src/cryptokit.ml"), ("chacha20_extract", "src/chacha20.c")],
  ["Random.pseudo_rng, Random.pseudo_rng_aes_ctr, Random.string"])

p("C19", "Entropy sources fill the whole request or raise",
  "Whenever random_bytes of a device, system or hardware generator returns normally, every byte of the requested range, and no byte outside it, has been set from the source: for a device generator, exactly the next bytes of the device, in order, with none skipped or repeated, however short the individual reads are. If the source ends before the request is satisfied, Entropy_source_closed is raised. hardware_rng raises No_entropy_source on a processor whose RDRAND instruction is absent, never delivers, or only ever delivers all-one words.",
  ["fault_sequences", "inputs"], "all request sizes and offsets, all sequences of short reads and end of file",
  "Tests read /dev/random once; short reads and end of file do not occur there.",
  [M, "src/stubs-rng.c"], [("device_rng read loop", "src/cryptokit.ml"), ("getentropy loop, RDRAND loop", "src/stubs-rng.c")],
  ["Random.device_rng, system_rng, hardware_rng, secure_rng, Random.string"])

p("C20", "Wiping leaves no trace of secrets in the object",
  "After wipe on any cipher, block cipher, stream cipher, hash, MAC, authenticated transform, encoder or seeded generator (compression objects excepted), no memory reachable from the object depends on the key, IV, seed or data that it processed, apart from strings owned by the caller. The same holds for composed objects; the one-shot functions (transform_string, hash_string, transform_channel, hash_channel, auth_transform_string, auth_check_transform_string) wipe the object they are given before returning; wipe_bytes, wipe_string and the wipe_key functions overwrite their whole argument with zeros.",
  ["histories", "inputs"], "all objects, keys, data and call histories before the wipe",
  "Tests never inspect memory after wipe.",
  [M, "src/stubs-sha3.c", "src/stubs-blake3.c", "src/stubs-ghash.c", "src/stubs-misc.c"],
  [("wipe methods", "src/cryptokit.ml"), ("sha3_wipe, blake3_wipe", "src/stubs-sha3.c, src/stubs-blake3.c")],
  ["object graph reachable from the wiped object, including out-of-heap contexts"])

p("C21", "Illegal parameters are refused with the documented error",
  "Every constructor accepts exactly the parameter values its documentation allows: key lengths, IV lengths, hash sizes, feedback sizes, seed lengths, key-generation sizes and block sizes. Any other value raises the documented error (Wrong_key_size, Wrong_IV_size, Seed_too_short, Incompatible_block_size, ...) or is rejected by an exception before any data is processed; no illegal parameter yields a usable object.",
  ["inputs"], "all lengths and sizes around and away from the legal ones, for every constructor",
  "Tests construct objects only with legal parameters.",
  [M], [("checks in class initializers", "src/cryptokit.ml")],
  ["all constructors in Cipher, Block, Stream, AEAD, Hash, MAC, Random, RSA, Paillier, DH"])

p("C22", "No call reads or writes outside the range it is given",
  "For every method and function taking a buffer with position and length, an invalid range never causes an access outside the buffer: it raises an exception (a range whose length is not positive, or whose position plus length overflows, may instead do nothing). A valid range causes reads and writes only inside that range and the object's own state. The process never crashes or hangs, whatever the arguments.",
  ["inputs", "histories"], "all (position, length) pairs including negative, overflowing and one-past-the-end, on buffers of all sizes, for every method",
  "Tests only pass valid ranges, and an out-of-range access rarely crashes.",
  [M, "src/stubs-misc.c", "src/stubs-zlib.c", "src/stubs-chacha20.c", "src/stubs-arcfour.c", "src/stubs-poly1305.c"],
  [("invalid_arg checks before C calls", "src/cryptokit.ml")],
  ["put_substring, add_substring, transform, random_bytes, xor_bytes, xor_string"])

p("C23", "Results do not depend on garbage collector activity",
  "The results of all operations are the same whenever the garbage collector runs: a minor collection, major slice or compaction at any allocation inside any operation, between any two operations on the same object, or by another thread while an operation has released the runtime lock, changes neither results nor exceptions.",
  ["schedules", "histories"], "all points at which a collection can occur inside and between operations",
  "Tests run with one heap layout, where a collection inside a given C stub practically never happens.",
  ["src/stubs-aes.c", "src/stubs-ghash.c", "src/stubs-siphash.c", "src/stubs-sha3.c", "src/stubs-blake3.c", "src/stubs-zlib.c", "src/stubs-poly1305.c", M],
  [("CAMLparam/CAMLlocal roots in stubs", "src/stubs-*.c")],
  ["all constructors and methods under controlled heap states"])

p("C24", "Build configuration never changes results",
  "The library returns the same results and raises the same errors whether it is compiled with or without hardware acceleration, whether or not the processor then offers that acceleration, as native code or bytecode, and with 32-bit or 64-bit Poly1305 arithmetic. Built without zlib, compression functions raise Compression_not_supported and everything else is unchanged.",
  ["configurations", "inputs"], "all generated operation sequences, run on every build configuration",
  "The test suite runs on one configuration only.",
  ["src/aesni.c", "src/rijndael-alg-fst.c", "src/pclmul.c", "src/ghash.c", "src/stubs-aes.c", "src/stubs-ghash.c", "src/poly1305-donna-32.h", "src/poly1305-donna-64.h", "src/stubs-zlib.c", "src/config/flags.ml"],
  [("aesni_available / pclmul_available dispatch", "src/stubs-aes.c, src/stubs-ghash.c"), ("bytecode entry points", "src/stubs-*.c")],
  ["transcripts of operation sequences"])

p("C25", "Channel helpers consume and produce exactly what they should",
  "transform_channel and hash_channel process exactly len bytes of the input channel when len is given, leaving the rest unread, and everything up to end of file otherwise, whatever the sizes of the individual reads; they raise End_of_file if fewer than len bytes are available. The bytes written, or the digest returned, equal those of transform_string or hash_string on the same bytes.",
  ["inputs", "fault_sequences"], "all file lengths, len values, channel kinds and short-read patterns, all transforms and hashes",
  "Tests do not use channels.",
  [M], [("transform_channel, hash_channel", "src/cryptokit.ml")], ["transform_channel, hash_channel"])

p("C26", "Composition combinators behave as sequential application",
  "compose t1 t2 gives on every input and call history what t2 gives on the output of t1, with flush and finish reaching both stages; block sizes are those of the ends. transform_then_hash and transform_and_hash output what the transform outputs, with as tag the hash of the transformed data, respectively of the input data; tag_size equals the length of the tag.",
  ["histories", "inputs"], "all pairs of transforms and hashes, all call histories, nested compositions",
  "Tests do not compose transforms except in one AEAD vector.",
  [M], [("class compose, transform_then_hash, transform_and_hash", "src/cryptokit.ml")],
  ["compose, transform_then_hash, transform_and_hash"])

p("C27", "Comparison and xor utilities are exact",
  "string_equal and bytes_equal return true exactly when both arguments have the same length and contents. xor_bytes and xor_string replace exactly the requested destination bytes by their xor with the source bytes, for every length, alignment and offset, and also when source and destination are the same buffer at the same position.",
  ["inputs"], "all pairs of strings, lengths, alignments and offsets",
  "Tests do not call them except indirectly.",
  [M, "src/stubs-misc.c"], [("seq_equal", "src/cryptokit.ml"), ("caml_xor_string word loop", "src/stubs-misc.c")],
  ["string_equal, bytes_equal, xor_bytes, xor_string"])

p("C28", "Comparison time is independent of contents",
  "The sequence of instructions executed by string_equal and bytes_equal is determined by the lengths of the two arguments and independent of their contents: neither the number nor the position of equal or different bytes influences it.",
  ["inputs"], "all pairs of contents of the same lengths",
  "Functional tests cannot observe execution time.",
  [M], [("seq_equal accumulates differences without early exit", "src/cryptokit.ml")],
  ["executed instruction trace of string_equal, bytes_equal"])

p("C29", "Objects are independent and never alias or alter caller data",
  "Interleaving operations on any number of objects gives each the result it would give alone, including objects built from the same key, IV, header or seed strings. No operation other than the wiping functions alters its input strings or buffers, and altering a buffer after it was passed to an object does not change that object's later results.",
  ["histories"], "all interleavings of operations on several live objects, with caller buffers mutated between calls",
  "Tests use one object at a time and never mutate or re-check inputs.",
  [M, "src/d3des.c", "src/keccak.c", "src/blowfish.c", "src/stubs-des.c"],
  [("per-object contexts; no global mutable state in C code", "src/*.c"), ("copies of IV in make_initial_iv", "src/cryptokit.ml")],
  ["all objects"])

p("C30", "Randomized operations use only the random source they are given",
  "Key generation, parameter generation, private secrets and Paillier encryption with an explicit rng argument are pure functions of their parameters and of the bytes drawn from that rng: the same bytes give the same result. If the rng raises, the exception propagates and no result is produced; only in-range requests are made to it, and its bytes influence the result.",
  ["inputs", "fault_sequences"], "all random streams, including degenerate ones, and a failure injected at every request",
  "Tests generate keys once, with the default source.",
  [M, "src/cryptokitBignum.ml"], [("~rng:(rng#random_bytes)", "src/cryptokit.ml"), ("random, random_prime", "src/cryptokitBignum.ml")],
  ["RSA.new_key, Paillier.new_key/encrypt, DH.new_parameters/private_secret"])

p("C31", "Private-key operations leave no copy of the private key behind",
  "When RSA.decrypt, sign, decrypt_CRT, sign_CRT or Paillier.decrypt return, the OCaml memory that they allocated contains no part of the private key used (d; or p, q, dp, dq, qinv; respectively lambda, mu), neither as bytes nor as a number: every temporary copy was overwritten (intermediate results, which for special messages may coincide with parts of the key, excepted). The only copy left is the one in the caller's key record.",
  ["inputs"], "all keys of more than 128 bits (numbers that fit in a machine word excepted) and all messages",
  "Tests look at results only, never at memory.",
  [M, "src/cryptokitBignum.ml", "src/stubs-misc.c"], [("Bn.wipe after each operation", "src/cryptokit.ml"), ("caml_wipe_z", "src/stubs-misc.c"), ("of_bytes wipes its temporary", "src/cryptokitBignum.ml")],
  ["RSA.decrypt, sign, decrypt_CRT, sign_CRT, Paillier.decrypt"])

p("C32", "Memory and descriptors of dropped objects are released",
  "Creating, using and dropping any number of objects of the library does not make memory use grow: once an object is unreachable and collected, all memory it used is released, whether it was wiped or not, finished or not, or stopped by an error, and also when its construction failed. wipe on a device_rng closes its file descriptor. Releasing never happens twice or too early.",
  ["histories"], "all constructors and parameters, legal or not, all ways of using and abandoning an object",
  "Tests create each object once and do not measure memory.",
  ["src/stubs-sha3.c", "src/stubs-blake3.c", "src/stubs-ghash.c", "src/stubs-zlib.c", "src/stubs-rng.c", M],
  [("finalizers of custom blocks", "src/stubs-sha3.c, src/stubs-blake3.c, src/stubs-ghash.c, src/stubs-zlib.c"), ("device_rng#wipe", "src/cryptokit.ml")],
  ["all constructors; memory statistics of the process"])

p("C33", "Refused memory is reported and harms nothing",
  "If the system refuses a request for memory that the library's C code (or zlib working for it) makes during a constructor or method, the call raises Out_of_memory or Error (Compression_error _), or gives the normal result; it never crashes, hangs or gives a wrong result. The abandoned object is collected safely and completely, and other objects and later calls behave as if nothing had happened.",
  ["fault_sequences", "histories"], "all objects with state outside of the OCaml heap, all parameters, a refusal at every request, alone or repeated",
  "Tests never run out of memory.",
  ["src/stubs-sha3.c", "src/stubs-blake3.c", "src/stubs-ghash.c", "src/stubs-zlib.c"],
  [("caml_stat_alloc before the custom block", "src/stubs-sha3.c, src/stubs-blake3.c, src/stubs-ghash.c, src/stubs-zlib.c"), ("caml_zlib_error", "src/stubs-zlib.c")],
  ["Hash.sha3, keccak, blake3; MAC.blake3; AEAD; Zlib; all other transforms and hashes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
for q in P:
    assert len(q["title"]) <= 80, q["title"]
print(len(P))
