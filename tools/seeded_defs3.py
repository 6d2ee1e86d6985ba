"""More planted changes to the C sources (see seeded_defs.py)."""
from seeded_defs import bug
from seeded_defs2 import ASAN_SH, PLAIN_SH

bug("c01-aes-first-dec", "C01",
 [("stubs-aes.c", """  value ckey = caml_alloc_string(Cooked_key_size);
  int nr;

  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupDec(""", """  value ckey = caml_alloc_string(Cooked_key_size);
  int nr;

  if (aesni_available == 1)
    nr = aesniKeySetupDec(""")],
 "the first AES object of the process decrypts, and an encrypting one is created before it is used (processor with AES-NI)",
 "the key of the first decrypting object is laid out for the software code and later used by the hardware one",
 r'''
let () =
  let k = pat 16 1 in
  let d = new Block.aes_decrypt k in
  let e = new Block.aes_encrypt k in
  let m = Bytes.of_string (pat 16 2) in
  let b = Bytes.create 16 in
  e#transform m 0 b 0; d#transform b 0 b 0;
  check (b = m) "does not decrypt"
''')

bug("c01-blowfish-overlap", "C01",
 [("stubs-blowfish.c", """  p = &Byte_u(src, Long_val(src_ofs));
  COPY4BYTES((unsigned char *) &xl, p);
  COPY4BYTES((unsigned char *) &xr, p + 4);
  Blowfish_Decrypt((BLOWFISH_CTX *) String_val(ckey), &xl, &xr);
  p = &Byte_u(dst, Long_val(dst_ofs));
  COPY4BYTES(p, (unsigned char *) &xl);
  COPY4BYTES(p + 4, (unsigned char *) &xr);
""", """  unsigned char * q;
  q = &Byte_u(src, Long_val(src_ofs));
  p = &Byte_u(dst, Long_val(dst_ofs));
  COPY4BYTES(p, q);
  COPY4BYTES(p + 4, q + 4);
  memcpy(&xl, p, 4); memcpy(&xr, p + 4, 4);
  Blowfish_Decrypt((BLOWFISH_CTX *) String_val(ckey), &xl, &xr);
  COPY4BYTES(p, (unsigned char *) &xl);
  COPY4BYTES(p + 4, (unsigned char *) &xr);
""")],
 "Blowfish decryption from a range of a buffer to another range of it that begins 1 to 7 bytes after it",
 "the source is overwritten before it has been read: wrong plaintext",
 r'''
let () =
  let c = new Block.blowfish_encrypt (pat 16 1) and d = new Block.blowfish_decrypt (pat 16 1) in
  let m = Bytes.of_string (pat 8 2) in
  for src = 0 to 16 do for dst = 0 to 16 do
    let b = Bytes.make 32 'x' in
    c#transform m 0 b src; d#transform b src b dst;
    check (Bytes.sub b dst 8 = m) "does not decrypt"
  done done
''')

bug("c07-blake3-xof", "C07",
 [("blake3.c", "  uint64_t output_block_counter = seek / 64;", "  uint8_t output_block_counter = seek / 64;")],
 "a BLAKE3 result of more than 16384 bytes",
 "the output repeats after 16384 bytes",
 r'''
let () =
  let r = hash_string (Hash.blake3 (8 * 40000)) "abc" in
  check (String.length r = 40000) "length";
  check (String.sub r 0 10000 <> String.sub r 16384 10000) "the output repeats"
''')

bug("c29-siphash-static", "C29",
 [("siphash.c", """  int free = SIPHASH_BUFLEN - used;

""", """  int free = SIPHASH_BUFLEN - used;
  static unsigned char word[SIPHASH_BUFLEN];

  if (used == 0) memset(word, 0, SIPHASH_BUFLEN);
"""),
  ("siphash.c", "    memcpy(st->buffer + used, p, len);\n", "    memcpy(word + used, p, len);\n    memcpy(st->buffer + used, p, len);\n"),
  ("siphash.c", "    memcpy(st->buffer + used, p, free);\n    siphash_mix(st, U8TO64_LE(st->buffer));", "    memcpy(word + used, p, free);\n    siphash_mix(st, U8TO64_LE(word));"),
  ("siphash.c", "  if (len > 0) memcpy(st->buffer, p, len);\n", "  if (len > 0) { memcpy(word, p, len); memcpy(st->buffer, p, len); }\n")],
 "two SipHash objects fed in alternation, with pieces that are not multiples of 8 bytes",
 "the pending bytes of one object are mixed into the other",
 r'''
let () =
  let a = MAC.siphash (pat 16 1) and b = MAC.siphash (pat 16 1) in
  a#add_string "abcdefghijk"; b#add_string "ABCDEFGHIJK"; a#add_string "lmnopqrstuvw"; b#add_string "LMNOPQRSTUVW";
  check (a#result = hash_string (MAC.siphash (pat 16 1)) "abcdefghijklmnopqrstuvw") "objects interfere";
  check (b#result = hash_string (MAC.siphash (pat 16 1)) "ABCDEFGHIJKLMNOPQRSTUVW") "objects interfere"
''')

bug("c08-siphash-uninit", "C08",
 [("siphash.c", "  st->used = 0;\n", "  if (outlen == 8) st->used = 0;\n")],
 "a 128-bit SipHash object whose memory was not zero before",
 "the number of pending bytes is not initialised",
 sh=PLAIN_SH, files={"t.c": r'''#include <stdio.h>
#include <string.h>
#include "siphash.c"
int main(void) {
  unsigned char key[16] = "0123456789abcde", o1[16], o2[16];
  struct siphash s;
  for (int len = 8; len <= 16; len += 8) {
    memset(&s, 0, sizeof s); siphash_init(&s, key, len); siphash_add(&s, key, 13); siphash_final(&s, len, o1);
    memset(&s, 3, sizeof s); siphash_init(&s, key, len); siphash_add(&s, key, 13); siphash_final(&s, len, o2);
    if (memcmp(o1, o2, len)) { fprintf(stderr, "FAIL: depends on the previous contents of memory\n"); return 1; }
  }
  return 0;
}
'''})

bug("c09-poly-want16", "C09",
 [("poly1305-donna.c", "		size_t want = (bytes & ~(poly1305_block_size - 1));", "		unsigned short want = (bytes & ~(poly1305_block_size - 1));")],
 "ChaCha20-Poly1305 data given in one piece of 65536 bytes or more",
 "a multiple of 65536 bytes is left out of the authentication",
 r'''
let () =
  let k = pat 32 1 and iv = pat 12 2 in
  let m = pat 70000 3 in
  let c = auth_transform_string (AEAD.chacha20_poly1305 ~iv k AEAD.Encrypt) m in
  let t = AEAD.chacha20_poly1305 ~iv k AEAD.Encrypt in
  for i = 0 to 69 do t#put_string (String.sub m (1000 * i) 1000) done;
  let tag = t#finish_and_get_tag in
  check (t#get_string ^ tag = c) "the tag depends on the pieces"
''')

bug("c17-gzip", "C17",
 [("stubs-zlib.c", """  if (inflateInit2(ZStream_val(vzs),
                   Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)""", """  if (inflateInit2(ZStream_val(vzs),
                   Bool_val(expect_header) ? MAX_WBITS + 32 : -MAX_WBITS) != Z_OK)""")],
 "a gzip file given to uncompress ~expect_zlib_header:true",
 "data in another format than the one announced is accepted",
 r'''
let () =
  let gz = transform_string (Hexa.decode ()) "1f8b0800000000000003010300fcff616263c241243503000000" in
  check ((try ignore (transform_string (Zlib.uncompress ~expect_zlib_header:true ()) gz); false
          with Error (Compression_error _) -> true)) "gzip data accepted"
''')

bug("c20-blake3-sizeof", "C20",
 [("stubs-blake3.c", "memset(Context_val(ctx), 0, sizeof(blake3_hasher));", "memset(Context_val(ctx), 0, sizeof(Context_val(ctx)));")],
 "a BLAKE3 object wiped after absorbing data",
 "only the first 8 bytes of the state are erased",
 r'''
external peek : Obj.t -> Obj.t = "demo_peek"
external look : Obj.t -> string -> bool = "demo_look"
let () =
  let h = Hash.blake3 256 in
  h#add_string "THE SECRET MESSAGE OF THE DEMONSTRATION";
  let o = Obj.repr h in
  let c = ref None in
  for i = 0 to Obj.size o - 1 do
    let f = Obj.field o i in
    if Obj.is_block f && Obj.tag f = Obj.custom_tag then c := Some f
  done;
  match !c with None -> () | Some c ->
  let p = peek c in
  check (look p "MESSAGE OF") "the demonstration does not see the state";
  h#wipe;
  check (not (look p "MESSAGE OF")) "message still in memory after wipe"
''', fulldune='(executable (name demo) (libraries cryptokit unix zarith) (foreign_stubs (language c) (names peek)) (flags (:standard -w -a -alert --all)))',
 extra='cp "$here"/peek.c "$w/d/" || exit 2', files={"peek.c": r'''#define _GNU_SOURCE
#include <string.h>
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>
#include <caml/custom.h>
value demo_peek(value c) { void * p = *(void **) Data_custom_val(c); value r = caml_alloc(1, Abstract_tag); *(void **) &Field(r, 0) = p; return r; }
value demo_look(value p, value s) { void * q = *(void **) &Field(p, 0); return Val_bool(memmem(q, 1900, String_val(s), caml_string_length(s)) != NULL); }
'''})

bug("c22-aes-key-overread", "C22",
 [("aesni.c", "  nrounds = aesni_key_expansion(key, keylength, key_schedule);\n  for", "  unsigned char k[32];\n  for (i = 0; i < 32; i++) k[i] = key[i];\n  nrounds = aesni_key_expansion(k, keylength, key_schedule);\n  for")],
 "an AES decryption key of 16 bytes at the end of a memory page (processor with AES-NI)",
 "up to 16 bytes beyond the key are read",
 sh=ASAN_SH.replace("-O1", "-O1 -D__AES__ -maes -msse4.1"), files={"t.c": r'''#include <stdlib.h>
#include <string.h>
#include "aesni.c"
int main(void) {
  unsigned char ks[16 * 15] __attribute__((aligned(16)));
  if (aesni_check_available() != 1) return 0;
  for (int n = 16; n <= 32; n += 16) {
    unsigned char * p = malloc(n); memset(p, 7, n);
    aesniKeySetupEnc(ks, p, 8 * n);
    aesniKeySetupDec(ks, p, 8 * n);
    free(p);
  }
  return 0;
}
'''})

bug("c23-sha256-release", "C23",
 [("stubs-sha256.c", """  SHA256_add_data(Context_val(ctx), &Byte_u(src, Long_val(ofs)), Long_val(len));
""", """  if (Long_val(len) >= 65536) {
    /* a long computation: let the other threads run */
    struct SHA256Context * c = Context_val(ctx);
    unsigned char * p = &Byte_u(src, Long_val(ofs));
    long n = Long_val(len);
    caml_enter_blocking_section();
    SHA256_add_data(c, p, n);
    caml_leave_blocking_section();
  } else
  SHA256_add_data(Context_val(ctx), &Byte_u(src, Long_val(ofs)), Long_val(len));
"""), ("stubs-sha256.c", "#include <caml/alloc.h>\n", "#include <caml/alloc.h>\n#include <caml/signals.h>\n")],
 "another thread that collects or compacts the heap while one hashes a piece of 64 KiB or more with SHA-256",
 "the data or the state is accessed through pointers that the collector has made stale",
 r'''
external gc_in_blocking : unit -> unit = "demo_arm"
let () =
  (* another thread's collection, made deterministic: it happens when the runtime lock is released *)
  gc_in_blocking ();
  Callback.register "demo_gc" (fun () -> Gc.full_major (); for i = 1 to 1000 do ignore (Sys.opaque_identity (Bytes.make 64 'z')) done; Gc.minor ());
  for i = 1 to 20 do
    let m = pat 100_000 i in
    let r =
      let h = Hash.sha256 () in
      for k = 0 to 99 do h#add_string (String.sub m (1000 * k) 1000) done; h#result in
    let h = Hash.sha256 () in
    h#add_string m;
    check (h#result = r) "the digest depends on the collector"
  done
''', fulldune='(executable (name demo) (libraries cryptokit unix) (foreign_stubs (language c) (names arm)) (flags (:standard -w -a -alert --all)))',
 extra='cp "$here"/arm.c "$w/d/" || exit 2', files={"arm.c": r'''#define CAML_INTERNALS
#include <caml/mlvalues.h>
#include <caml/callback.h>
#include <caml/signals.h>
static int busy = 0;
static void (*old)(void);
static void hook(void) {
  if (busy) return;
  busy = 1;
  const value * f = caml_named_value("demo_gc");
  if (f) caml_callback_exn(*f, Val_unit);
  busy = 0;
  if (old) old();
}
value demo_arm(value u) { old = caml_enter_blocking_section_hook; caml_enter_blocking_section_hook = hook; return u; }
'''})

bug("c24-ghash-runtime", "C24",
 [("stubs-ghash.c", """  if (pclmul_available == 1) {
    memset(""", """  if (pclmul_available >= 0) {
    memset(""")],
 "a build with PCLMUL support, run on a processor without it",
 "the initialised table is too small for the software code: GHASH reads outside of it",
 r"""
let () =
  (* the objects are finalised after having been wiped *)
  for i = 1 to 50 do
    let t = AEAD.aes_gcm ~iv:(pat 12 2) (pat 16 i) AEAD.Encrypt in
    t#put_string "some data"; ignore t#finish_and_get_tag; t#wipe
  done;
  Gc.full_major (); Gc.full_major ()
""", extra='for f in "$w"/src/stubs-ghash.c "$w"/src/stubs-aes.c; do cat "$here/nocpu.h" "$f" > "$w/x.c" && mv "$w/x.c" "$f"; done',
 files={"nocpu.h": open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "nocpu.h")).read()})

# Requests for memory made through malloc by the program itself (the OCaml
# run-time system included), refused on demand
REFUSE_DUNE = '(executable (name demo) (libraries cryptokit unix) (link_flags (-ccopt -Wl,--wrap=malloc -ccopt -Wl,--wrap=deflateInit2_)) (foreign_stubs (language c) (names refuse)) (flags (:standard -w -a -alert --all)))'
REFUSE_EXTRA = 'cp "$here"/refuse.c "$w/d/" || exit 2'
REFUSE_C = r'''#include <stddef.h>
#include <stdlib.h>
#include <zlib.h>
#include <caml/mlvalues.h>
static int refuse = 0;
extern void * __real_malloc(size_t);
void * __wrap_malloc(size_t n) { return refuse && n < 4096 ? NULL : __real_malloc(n); }
static void * za(void * o, unsigned n, unsigned m) { return refuse ? NULL : calloc(n, m); }
static void zf(void * o, void * p) { free(p); }
extern int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int);
int __wrap_deflateInit2_(z_streamp s, int a, int b, int c, int d, int e, const char * v, int n)
{ s->zalloc = za; s->zfree = zf; return __real_deflateInit2_(s, a, b, c, d, e, v, n); }
value demo_refuse(value v) { refuse = Bool_val(v); return Val_unit; }
'''
REFUSE_ML = r'''
external refuse : bool -> unit = "demo_refuse" [@@noalloc]
let sink = ref []
(* leaves numbers all over the minor heap *)
let litter () =
  for i = 1 to 40 do sink := List.init 5000 (fun i -> i + 0x1234567); sink := [] done;
  Gc.minor ()
let go make =
  for i = 1 to 50 do
    litter ();
    refuse true;
    (match make () with
     | exception Out_of_memory -> refuse false
     | exception Error (Compression_error _) -> refuse false
     | exception e -> refuse false; raise e
     | () -> refuse false);
    if i land 1 = 0 then Gc.full_major () else Gc.minor ()
  done
'''
bug("c33-sha3-order", "C33",
 [("stubs-sha3.c", """  struct SHA3Context * ctx = caml_stat_alloc(sizeof(struct SHA3Context));
  value res =
    caml_alloc_custom(&SHA3_context_ops,
                      sizeof(struct SHA3Context *),
                      0, 1);
  SHA3_init(ctx, Int_val(vsize));
""", """  value res =
    caml_alloc_custom(&SHA3_context_ops,
                      sizeof(struct SHA3Context *),
                      0, 1);
  struct SHA3Context * ctx = caml_stat_alloc(sizeof(struct SHA3Context));
  SHA3_init(ctx, Int_val(vsize));
""")],
 "memory is refused while a SHA-3 object is created, and a garbage collection takes place later",
 "the finalizer runs on a block that was never initialized: the program crashes",
 REFUSE_ML + r'''
let () = go (fun () -> ignore (Hash.sha3 256))
''', fulldune=REFUSE_DUNE, extra=REFUSE_EXTRA, files={"refuse.c": REFUSE_C})

bug("c33-blake3-malloc", "C33",
 [("stubs-blake3.c", "  blake3_hasher * ctx = caml_stat_alloc(sizeof(blake3_hasher));\n", "  blake3_hasher * ctx = caml_stat_alloc_noexc(sizeof(blake3_hasher));\n")],
 "memory is refused while a BLAKE3 object is created",
 "the refusal is not noticed: the program crashes instead of raising Out_of_memory",
 REFUSE_ML + r'''
let () = go (fun () -> ignore (Hash.blake3 256))
''', fulldune=REFUSE_DUNE, extra=REFUSE_EXTRA, files={"refuse.c": REFUSE_C})

bug("c33-deflate-twice", "C33",
 [("stubs-zlib.c", """                   Z_DEFAULT_STRATEGY) != Z_OK)
    caml_zlib_error("Zlib.deflateInit", vzs);
""", """                   Z_DEFAULT_STRATEGY) != Z_OK) {
    deflateEnd(ZStream_val(vzs));
    caml_stat_free(ZStream_val(vzs));
    caml_zlib_error("Zlib.deflateInit", vzs);
  }
""")],
 "zlib cannot allocate its state while a compressor is created, and a garbage collection takes place later",
 "the stream is released at once and then again by the finalizer",
 REFUSE_ML + r'''
let () =
  let keep = Array.init 100 (fun _ -> Zlib.compress ()) in
  go (fun () -> ignore (Zlib.compress ()));
  Array.iter (fun z -> z#put_string "abc"; z#finish; ignore z#get_string) keep
''', fulldune=REFUSE_DUNE, extra=REFUSE_EXTRA, files={"refuse.c": REFUSE_C.replace("refuse && n < 4096", "refuse && 0")})
