"""More planted changes to the C sources (see seeded_defs.py)."""
from seeded_defs import bug, BUGS

ASAN_SH = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -O1 -g -w -fsanitize=address -DEXPORT=static -DCAML_NAME_SPACE -I"$(ocamlc -where)" -I"$(pwd)/src" -o "$w/t" "$here/t.c" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$w/t"
"""
PLAIN_SH = ASAN_SH.replace("-fsanitize=address ", "")
STUB_DUNE = '(executable (name demo) (libraries cryptokit unix zarith) (foreign_stubs (language c) (names peek)) (flags (:standard -w -a -alert --all)))'
STUB_EXTRA = 'cp "$here"/peek.c "$w/d/" || exit 2'

bug("c03-arcfour-key256", "C03",
 [("arcfour.c", "                      int key_data_len)", "                      unsigned char key_data_len)"),
  ("arcfour.h", "                             int key_data_len);", "                             unsigned char key_data_len);")],
 "an ARCfour key of the maximum length, 256 bytes",
 "the length of a 256-byte key is truncated to 0, so that only its first byte is used",
 r'''
let () =
  let k = pat 256 1 in
  let k' = String.sub k 0 200 ^ pat 56 77 in
  let go k = transform_string (Cipher.arcfour k Cipher.Encrypt) (String.make 32 'a') in
  check (go k <> go k') "only a part of a 256-byte key is used"
''')

bug("c24-rijndael-dec", "C24",
 [("rijndael-alg-fst.c", "	for (i = 1; i < Nr; i++) {\n		rk += 4;\n		rk[0] =", "	for (i = 1; i < Nr && i < 13; i++) {\n		rk += 4;\n		rk[0] =")],
 "software AES (no AES-NI) decrypting with a 256-bit key",
 "the last inner round key of AES-256 is not transformed: the software path differs from the hardware one",
 sh=PLAIN_SH, files={"t.c": r'''#include <stdio.h>
#include <string.h>
#include "rijndael-alg-fst.c"
int main(void) {
  int bits, i, k;
  for (bits = 128; bits <= 256; bits += 64) for (k = 0; k < 50; k++) {
    u32 e[4*(MAXNR+1)], d[4*(MAXNR+1)]; u8 key[32], a[16], b[16], c[16];
    for (i = 0; i < 32; i++) key[i] = i * 37 + k * 11;
    for (i = 0; i < 16; i++) a[i] = i * 91 + k;
    int nr = rijndaelKeySetupEnc(e, key, bits);
    if (rijndaelKeySetupDec(d, key, bits) != nr) return 1;
    rijndaelEncrypt(e, nr, a, b); rijndaelDecrypt(d, nr, b, c);
    if (memcmp(a, c, 16)) { fprintf(stderr, "FAIL: software AES-%d does not decrypt\n", bits); return 1; }
  }
  return 0;
}
'''})

bug("c22-siphash-tail", "C22",
 [("siphash.c", "  if (len > 0) memcpy(st->buffer, p, len);", "  if (len > 0) memcpy(st->buffer, p, SIPHASH_BUFLEN);")],
 "data whose length is not a multiple of 8, at the end of a memory page",
 "up to 7 bytes beyond the data are read",
 sh=ASAN_SH, files={"t.c": r'''#include <stdlib.h>
#include <string.h>
#include "siphash.c"
int main(void) {
  unsigned char key[16] = "0123456789abcde", out[16];
  for (int n = 0; n < 40; n++) {
    unsigned char * p = malloc(n + 1); memset(p, 7, n + 1);
    struct siphash s; siphash_init(&s, key, 8); siphash_add(&s, p + 1, n); siphash_final(&s, 8, out);
    free(p);
  }
  return 0;
}
'''})

bug("c22-blake2-tail", "C22",
 [("blake2.c", "  while (len > BLAKE2s_BLOCKSIZE) {\n    blake2s_compress(s, data, BLAKE2s_BLOCKSIZE, 0);\n    data += BLAKE2s_BLOCKSIZE; len -= BLAKE2s_BLOCKSIZE;\n  }\n  /* Save remaining data */\n  memcpy(s->buffer, data, len);",
   "  while (len > BLAKE2s_BLOCKSIZE) {\n    blake2s_compress(s, data, BLAKE2s_BLOCKSIZE, 0);\n    data += BLAKE2s_BLOCKSIZE; len -= BLAKE2s_BLOCKSIZE;\n  }\n  /* Save remaining data */\n  memcpy(s->buffer, data, (len + 7) & ~(size_t) 7);")],
 "BLAKE2s data whose length is not a multiple of 8, at the end of a memory page",
 "up to 7 bytes beyond the data are read",
 sh=ASAN_SH, files={"t.c": r'''#include <stdlib.h>
#include <string.h>
#include "blake2.c"
int main(void) {
  unsigned char out[32];
  for (int n = 0; n < 140; n++) {
    unsigned char * p = malloc(n + 1); memset(p, 7, n + 1);
    struct blake2s s; blake2s_init(&s, 32, 0, p); blake2s_add_data(&s, p + 1, n); blake2s_final(&s, 32, out);
    free(p);
  }
  return 0;
}
'''})

bug("c20-sha3-wipe", "C20",
 [("stubs-sha3.c", "memset(Context_val(ctx), 0, sizeof(struct SHA3Context));", "memset(Context_val(ctx), 0, sizeof(Context_val(ctx)));")],
 "a SHA-3 object wiped after absorbing data",
 "only the first 8 bytes of the state are erased: the message buffer stays in memory",
 r'''
external peek : Obj.t -> Obj.t = "demo_peek"
external look : Obj.t -> string -> bool = "demo_look"
let () =
  let h = Hash.sha3 256 in
  h#add_string "THE SECRET MESSAGE OF THE DEMONSTRATION";
  let o = Obj.repr h in
  let c = ref None in
  for i = 0 to Obj.size o - 1 do
    let f = Obj.field o i in
    if Obj.is_block f && Obj.tag f = Obj.custom_tag then c := Some f
  done;
  match !c with None -> () | Some c ->
  let p = peek c in
  check (look p "MESSAGE OF") "the demonstration does not see the state";
  h#wipe;
  check (not (look p "MESSAGE OF")) "message still in memory after wipe"
''', fulldune=STUB_DUNE, extra=STUB_EXTRA, files={"peek.c": r'''#define _GNU_SOURCE
#include <string.h>
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>
#include <caml/custom.h>
value demo_peek(value c) { void * p = *(void **) Data_custom_val(c); value r = caml_alloc(1, Abstract_tag); *(void **) &Field(r, 0) = p; return r; }
value demo_look(value p, value s) { return Val_bool(memmem(*(void **) &Field(p, 0), 416, String_val(s), caml_string_length(s)) != NULL); }
'''})

bug("c13-wipe-z", "C13",
 [("stubs-misc.c", "(Wosize_val(v) - 1) * sizeof(value)", "(Wosize_val(v) - 2) * sizeof(value)")],
 "a Diffie-Hellman private secret of 128 bits or more, inspected after shared_secret",
 "the last (most significant) limb of every secret number survives the wipe",
 r'''
external wipe_z : Z.t -> unit = "caml_wipe_z"
let () =
  for k = 2 to 20 do
    let z = Z.of_bits (String.make (8 * k) '\255') in
    let z = Z.sub z Z.one in
    let o = Obj.repr z in
    let n = Obj.size o in
    wipe_z z;
    for i = 1 to n - 1 do check (Obj.raw_field o i = 0n) "a limb survives" done
  done
''', fulldune='(executable (name demo) (libraries cryptokit unix zarith) (flags (:standard -w -a -alert --all)))')

bug("c17-raw-window", "C17",
 [("stubs-zlib.c", "  if (inflateInit2(ZStream_val(vzs),\n                   Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)", "  if (inflateInit2(ZStream_val(vzs),\n                   Bool_val(expect_header) ? MAX_WBITS : -14) != Z_OK)")],
 "raw (headerless) compressed data with matches more than 16384 bytes back",
 "valid compressed data is rejected",
 r'''
let () =
  (* 20000 incompressible bytes, twice *)
  let m = Random.string (Random.pseudo_rng (pat 32 1)) 20000 in
  let m = m ^ m in
  let c = transform_string (Zlib.compress ()) m in
  check ((try transform_string (Zlib.uncompress ()) c with Error _ -> "") = m) "round trip"
''')

bug("c09-poly-reduce", "C09",
 [("poly1305-donna-64.h", "	g0 = h0 + 5; c = (g0 >> 44); g0 &= 0xfffffffffff;", "	g0 = h0 + 5; c = (g0 > (1ULL << 44)); g0 &= 0xfffffffffff;")],
 "a message whose Poly1305 accumulator is exactly 2^130-5 before the last reduction",
 "the final reduction is wrong for this accumulator: the tag differs from the standard",
 sh=PLAIN_SH, files={"t.c": r'''#include <stdio.h>
#include <string.h>
#include "poly1305-donna.c"
int main(void) {
  /* RFC 8439, appendix A.3: accumulators around 2^130-5 */
  unsigned char key[32] = { 1 }, m[48], mac[16];
  poly1305_context c;
  memset(m, 0xff, 16); memset(m + 16, 0xff, 16); m[16] = 0xf0; memset(m + 32, 0, 16); m[32] = 0x11;
  poly1305_init(&c, key); poly1305_update(&c, m, 48); poly1305_finish(&c, mac);
  if (mac[0] != 5 || mac[1] || mac[15]) { fprintf(stderr, "FAIL: vector 7\n"); return 1; }
  memset(m + 16, 0xfe, 16); m[16] = 0xfb; memset(m + 32, 0x01, 16);
  poly1305_init(&c, key); poly1305_update(&c, m, 48); poly1305_finish(&c, mac);
  for (int i = 0; i < 16; i++) if (mac[i]) { fprintf(stderr, "FAIL: vector 8\n"); return 1; }
  memset(m, 0xff, 16); m[0] = 0xfb; memset(m + 16, 0, 32);   /* exactly 2^130-5 */
  poly1305_init(&c, key); poly1305_update(&c, m, 48); poly1305_finish(&c, mac);
  for (int i = 0; i < 16; i++) if (mac[i]) { fprintf(stderr, "FAIL: 2^130-5\n"); return 1; }
  return 0;
}
'''})

bug("c29-aes-cache", "C29",
 [("stubs-aes.c", "  CAMLparam1(key);\n  value ckey = caml_alloc_string(Cooked_key_size);\n  int nr;\n\n  if (aesni_available == -1) aesni_check_available();\n  if (aesni_available == 1)\n    nr = aesniKeySetupEnc(", """  CAMLparam1(key);
  value ckey = caml_alloc_string(Cooked_key_size);
  int nr;
  static u8 last_key[32], last_cooked[Cooked_key_size];
  static mlsize_t last_len = 0;

  /* same key as the last time? */
  if (caml_string_length(key) == last_len && memcmp(last_key, String_val(key), 16) == 0) {
    memcpy((u8 *) String_val(ckey), last_cooked, Cooked_key_size);
    CAMLreturn(ckey);
  }
  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupEnc("""),
  ("stubs-aes.c", """    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key),
                             8 * caml_string_length(key));
  Byte(ckey, Cooked_key_NR_offset) = nr;
""", """    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key),
                             8 * caml_string_length(key));
  Byte(ckey, Cooked_key_NR_offset) = nr;
  last_len = caml_string_length(key);
  memcpy(last_key, String_val(key), last_len);
  memcpy(last_cooked, String_val(ckey), Cooked_key_size);
"""), ("stubs-aes.c", "#include \"aesni.c\"\n", "#include \"aesni.c\"\n#include <string.h>\n")],
 "two AES keys of the same length, 24 or 32 bytes, in a row, that agree on their first 16 bytes",
 "the second object uses the key of the first one",
 r'''
let () =
  let k1 = pat 32 1 in
  let k2 = String.sub k1 0 16 ^ pat 16 9 in
  let go k = transform_string (Cipher.aes ~mode:Cipher.ECB k Cipher.Encrypt) (pat 16 3) in
  let a = go k1 in
  let b = go k2 in
  check (a <> b) "two keys, same ciphertext";
  check (transform_string (Cipher.aes ~mode:Cipher.ECB k2 Cipher.Decrypt) b = pat 16 3) "does not decrypt"
''')

bug("c07-blake2s-carry", "C07",
 [("blake2.c", "  uint32_t m[16];\n  int i;\n  const uint8_t * sigma;\n\n  /* Update the length */\n  s->len[0] += numbytes;\n  if (s->len[0] < numbytes) s->len[1]++; /* carry */", "  uint32_t m[16];\n  int i;\n  const uint8_t * sigma;\n\n  /* Update the length */\n  if ((uint64_t) s->len[0] + numbytes > UINT64_C(0x100000000)) s->len[1]++; /* carry */\n  s->len[0] += numbytes;")],
 "a BLAKE2s message of 2^32 bytes or more",
 "the high word of the message length is never incremented: long messages get wrong digests",
 r'''
let () =
  let h = Hash.blake2s 256 in
  let z = Bytes.make (1 lsl 24) '\000' in
  for i = 1 to 256 do h#add_substring z 0 (1 lsl 24) done;
  h#add_char 'x';
  check (hex h#result = "@BLAKE2S4G@") "digest of a long message"
''')

bug("c07-ripemd-carry", "C07",
 [("ripemd160.c", "    ctx->length[1]++;    /* carry", "    ctx->length[1] |= 1;    /* carry")],
 "a RIPEMD-160 message of 1 GiB or more, hashed in small pieces",
 "the second carry into the high word of the length is lost: wrong digests",
 r'''
let () =
  let h = Hash.ripemd160 () in
  let z = Bytes.make (1 lsl 20) '\000' in
  for i = 1 to 1024 do h#add_substring z 0 (1 lsl 20) done;
  check (hex h#result = "@RIPE1G@") "digest of a long message"
''')

bug("c19-rdrand-tail", "C19",
 [("stubs-rng.c", "    if (! rdrand64(&rr)) return Val_false;\n    memcpy(dst, &rr, nbytes);", "    if (Long_val(len) >= 8) rr = r; else if (! rdrand64(&rr)) return Val_false;\n    memcpy(dst, &rr, nbytes);")],
 "a request to the hardware generator that is longer than 8 and not a multiple of 8",
 "the last bytes repeat the previous ones instead of being random",
 r'''
let () =
  match Random.hardware_rng () with
  | exception Error No_entropy_source -> ()
  | g ->
    let same = ref 0 in
    for i = 1 to 20 do
      let s = Random.string g 15 in
      if String.sub s 0 7 = String.sub s 8 7 then incr same
    done;
    check (!same < 3) "repeated bytes"
''')

bug("c23-chacha-root", "C23",
 [("stubs-chacha20.c", "  CAMLparam3(key, iv, counter);", "  CAMLparam2(iv, counter);")],
 "a young key string and a minor collection at the allocation of the ChaCha20 context",
 "the key is read through a stale pointer: wrong keystream, depending on collector timing",
 r'''
let () =
  let go k = transform_string (Cipher.chacha20 ~iv:"01234567" k Cipher.Encrypt) "0123456789" in
  let r = go (pat 32 1) in
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 4096 };
  for w = 0 to 4200 do
    Gc.minor ();
    let k = pat 32 1 in
    (* every fill of the minor heap *)
    for i = 1 to w do ignore (Sys.opaque_identity (Array.make 0 0)); ignore (Sys.opaque_identity (Bytes.create 7)) done;
    check (go k = r && k = pat 32 1) "keystream depends on the garbage collector"
  done
''')

bug("c23-sha512-final", "C23",
 [("stubs-sha512.c", "  res = caml_alloc_string(48);\n  SHA512_finish(Context_val(ctx), 384, &Byte_u(res, 0));", "  struct SHA512Context * c = Context_val(ctx);\n  res = caml_alloc_string(48);\n  SHA512_finish(c, 384, &Byte_u(res, 0));")],
 "a minor collection exactly at the allocation of the digest of SHA-384",
 "the hash state is accessed through a stale pointer",
 r'''
let () =
  let go w =
    let h = Hash.sha384 () in
    h#add_string "some message";
    for i = 1 to w do ignore (Sys.opaque_identity (Bytes.create 7)) done;
    h#result in
  let r = go 0 in
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 4096 };
  for w = 0 to 4200 do
    Gc.minor ();
    check (go w = r) "digest depends on the garbage collector"
  done
''')

bug("c06-blake3-subtree", "C06",
 [("blake3.c", "    while ((((uint64_t)(subtree_len - 1)) & count_so_far) != 0) {\n      subtree_len /= 2;\n    }", "    if ((((uint64_t)(subtree_len - 1)) & count_so_far) != 0) {\n      subtree_len = count_so_far & -count_so_far;\n      if (subtree_len < 2 * BLAKE3_CHUNK_LEN && input_len >= 4 * BLAKE3_CHUNK_LEN && count_so_far > 4 * BLAKE3_CHUNK_LEN)\n        subtree_len = 4 * BLAKE3_CHUNK_LEN;\n    }")],
 "a BLAKE3 message added in pieces: an odd number of chunks (5 or more), then a piece of 4 chunks or more",
 "the tree of chunks is built differently: the digest depends on how the message is cut into pieces",
 r'''
let () =
  let m = pat 16000 1 in
  let r = hash_string (Hash.blake3 256) m in
  List.iter (fun n ->
    let h = Hash.blake3 256 in
    h#add_string (String.sub m 0 n); h#add_string (String.sub m n (16000 - n));
    check (h#result = r) "digest depends on the pieces") [1; 1024; 1025; 2049; 3073; 4097; 5121; 6145; 7169; 5120; 7168]
''')

bug("c06-sha512-buffer", "C06",
 [("sha512.c", "    unsigned long l = 128 - ctx->numbytes;\n    if (len < l) {", "    unsigned long l = 128 - ctx->numbytes;\n    if (len == 0 && l == 1) ctx->numbytes = 0;\n    if (len < l) {")],
 "127 bytes pending and an empty piece",
 "an empty piece discards the pending bytes",
 r'''
let () =
  let m = pat 127 1 in
  let h = Hash.sha512 () in
  h#add_string m; h#add_string ""; h#add_string "abc";
  check (h#result = hash_string (Hash.sha512 ()) (m ^ "abc")) "an empty piece matters"
''')

bug("c22-sha1-offset", "C22",
 [("stubs-sha1.c", "&Byte_u(src, Long_val(ofs))", "&Byte_u(src, (unsigned) Long_val(ofs))")],
 "a piece located beyond the first 4 GiB of its string",
 "the position is truncated to 32 bits: the hash reads other bytes than those designated",
 r'''
let () =
  let b = Bytes.create (1 lsl 32 + 64) in
  Bytes.blit_string (pat 20 1) 0 b (1 lsl 32 + 3) 20;
  Bytes.blit_string (pat 20 9) 0 b 3 20;
  let h = Hash.sha1 () in
  h#add_substring b (1 lsl 32 + 3) 20;
  check (h#result = hash_string (Hash.sha1 ()) (pat 20 1)) "wrong bytes hashed"
''')

bug("c18-extract-int", "C18",
 [("stubs-chacha20.c", "                   &Byte_u(dst, Long_val(dst_ofs)),\n                   Long_val(len));", "                   &Byte_u(dst, Long_val(dst_ofs)),\n                   (unsigned) Long_val(len));")],
 "a request of 4 GiB or more to pseudo_rng",
 "only the length modulo 2^32 is delivered, the rest of the buffer is left as it was",
 r'''
let () =
  let g = Random.pseudo_rng (pat 32 1) in
  let b = Bytes.make (1 lsl 32 + 100) 'z' in
  g#random_bytes b 0 (Bytes.length b);
  check (Bytes.sub b (1 lsl 32) 100 <> Bytes.make 100 'z') "buffer not filled"
''')

bug("c17-flush-block", "C17",
 [("stubs-zlib.c", "{ Z_NO_FLUSH, Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_FINISH };", "{ Z_NO_FLUSH, Z_BLOCK, Z_FULL_FLUSH, Z_FINISH };")],
 "flushing a compressor and decompressing what it produced so far",
 "flush does not complete the last byte: data given before flush cannot be decompressed yet",
 r'''
let () =
  let g = Random.pseudo_rng (pat 32 1) in
  for n = 1 to 400 do
    let m = String.map (fun c -> Char.chr (97 + Char.code c land 1)) (Random.string g (n * 5)) in
    let c = Zlib.compress () and u = Zlib.uncompress () in
    c#put_string m; c#flush;
    (try u#put_string c#get_string; u#flush with Error _ -> ());
    check (u#get_string = m) "flush does not flush"
  done
''')

bug("c08-siphash-len", "C08",
 [("siphash.c", "  switch (st->len8 & 7) {", "  switch (st->len8 > 248 ? 7 : st->len8 & 7) {")],
 "a SipHash message whose length modulo 256 is between 249 and 254",
 "stale bytes of the buffer enter the last block: wrong MAC",
 r'''
let () =
  let key = pat 16 1 in
  for n = 240 to 260 do
    let m = pat n 2 in
    let go k =
      let h = MAC.siphash key in
      if k > 0 then h#add_string (String.sub m 0 k);
      h#add_string (String.sub m k (n - k)); h#result in
    let a = go 0 in
    for k = 1 to n do check (go k = a) "SipHash depends on stale bytes" done
  done
''')

bug("c01-blowfish-highbit", "C01",
 [("blowfish.c", "      data = (data << 8) | key[j];", "      data = (data << 8) | (j < 32 ? key[j] : key[j] & 0x7f);")],
 "a Blowfish key of more than 32 bytes, with bytes above 127 beyond the 32nd",
 "the top bits of the last key bytes are ignored",
 r'''
let enc key = let c = new Block.blowfish_encrypt key in
  let b = Bytes.make 8 'x' in c#transform b 0 b 0; Bytes.to_string b
let () =
  let k = String.make 40 'a' in
  check (enc k <> enc (String.make 39 'a' ^ "\225")) "a key bit does not matter"
''')

BLAKE2S4G = "@"
RIPE1G = "@"
def digests():
    """expected values of the long-message demonstrations, cached"""
    import os, json, hashlib
    c = "/tmp/seeded_digests.json"
    if os.path.exists(c): return json.load(open(c))
    h = hashlib.blake2s(); z = bytes(1 << 24)
    for i in range(256): h.update(z)
    h.update(b"x")
    r = hashlib.new("ripemd160")
    z = bytes(1 << 20)
    for i in range(1024): r.update(z)
    d = {"@BLAKE2S4G@": h.hexdigest(), "@RIPE1G@": r.hexdigest()}
    json.dump(d, open(c, "w"))
    return d
def fill():
    d = digests()
    for b in BUGS:
        for k, v in d.items(): b["demo"] = b["demo"].replace(k, v)
fill()

# ---------------------------------------------------------------- C31, C32
RSS = r'''
let rss () =
  let ic = open_in "/proc/self/statm" in
  let l = input_line ic in close_in ic;
  Scanf.sscanf l "%d %d" (fun _ r -> r * 4)
let grows n f =
  let round () = for i = 1 to n do f (); if i land 63 = 0 then Gc.full_major () done; Gc.full_major () in
  round (); round (); round ();
  let a = rss () in
  round (); round ();
  rss () - a
'''
bug("c32-blake3-wipe-leak", "C32",
 [("stubs-blake3.c", "  caml_blake3_finalize(ctx);\n  return Val_unit;", "  Context_val(ctx) = NULL;\n  return Val_unit;")],
 "BLAKE3 objects wiped before being dropped, in any number",
 "the context of a wiped object is forgotten instead of freed: 1.9 KB lost per object",
 RSS + r'''
let () =
  let g = grows 20000 (fun () -> let h = Hash.blake3 256 in h#add_string "abc"; ignore h#result; h#wipe) in
  check (g < 20000) (Printf.sprintf "memory grew by %d KB" g)
''')

bug("c32-sha3-double-free", "C32",
 [("stubs-sha3.c", "    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));\n    caml_stat_free(Context_val(ctx));\n    Context_val(ctx) = NULL;", "    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));\n    caml_stat_free(Context_val(ctx));")],
 "a SHA-3 object wiped, then collected",
 "the context is freed by wipe and freed again by the finalizer",
 r'''
let () =
  for i = 1 to 2000 do
    let h = Hash.sha3 256 in h#add_string "abc"; ignore h#result; h#wipe;
    let k = Hash.sha3 512 in k#add_string "abc";
    if i land 15 = 0 then Gc.full_major ()
  done
''')

bug("c32-sha3-keep", "C32",
 [("stubs-sha3.c", "  if (Context_val(ctx) != NULL) {\n    caml_stat_free(Context_val(ctx));\n    Context_val(ctx) = NULL;\n  }\n}\n\nstatic struct", "  if (Context_val(ctx) != NULL && Context_val(ctx)->numbytes == 0) {\n    caml_stat_free(Context_val(ctx));\n    Context_val(ctx) = NULL;\n  }\n}\n\nstatic struct")],
 "SHA-3 objects dropped without wipe while a partial block is buffered",
 "such objects are never freed",
 RSS + r'''
let () =
  let g = grows 40000 (fun () -> let h = Hash.sha3 256 in h#add_string "abc") in
  check (g < 10000) (Printf.sprintf "memory grew by %d KB" g)
''')

bug("c32-zlib-struct", "C32",
 [("stubs-zlib.c", "  deflateEnd(ZStream_val(vzs));\n  caml_stat_free(ZStream_val(vzs));\n", "  deflateEnd(ZStream_val(vzs));\n")],
 "compression objects created in any number",
 "112 bytes are lost per object",
 RSS + r'''
let () =
  let g = grows 40000 (fun () -> ignore (Zlib.compress ())) in
  check (g < 5000) (Printf.sprintf "memory grew by %d KB" g)
''')

bug("c31-wipe-parity", "C31",
 [("stubs-misc.c", "    memset(Data_custom_val(v), 0, (Wosize_val(v) - 1) * sizeof(value));", "    memset(Data_custom_val(v), 0, (Wosize_val(v) / 2) * 2 * sizeof(value) - sizeof(value));")],
 "a private key whose numbers have an odd number of 64-bit limbs (for example 1.5 kbit RSA with CRT), memory inspected after the operation",
 "the last limb of such numbers survives in memory",
 r'''
external heap_has : string -> bool = "demo_minor_has"
let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 1_000_000 };
  let rng = Random.pseudo_rng (pat 32 1) in
  List.iter (fun bits ->
    let (k, _) = RSA.new_key ~rng bits in
    let le s = String.init 8 (fun i -> s.[7 - i]) in    (* top limb, little endian *)
    let p = le k.RSA.p and d = le k.RSA.d in
    let m = String.make (bits / 8 - 1) 'm' in
    Gc.minor ();
    ignore (RSA.decrypt k m);
    check (not (heap_has d)) "the private exponent is still in memory";
    ignore (RSA.decrypt_CRT k m);
    check (not (heap_has p)) "a prime factor is still in memory") [ 384; 512; 640; 1024; 1152 ]
''', fulldune=STUB_DUNE, extra=STUB_EXTRA, files={"peek.c": r'''#define _GNU_SOURCE
#define CAML_INTERNALS
#define CAML_NAME_SPACE
#include <string.h>
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/misc.h>
#include <caml/domain_state.h>
#include <caml/domain.h>
#include <caml/minor_gc.h>
value demo_minor_has(value s) {
  char * p = (char *) Caml_state->young_ptr, * e = (char *) Caml_state->young_alloc_end;
  return Val_bool(memmem(p, e - p, String_val(s), caml_string_length(s)) != NULL);
}
'''})
