From fff60d910abe2a98c0891e39386ca06c978bfce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 01/21] fix: to_bytes fails when the byte length is not a
 multiple of the limb size

---
 src/cryptokitBignum.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..3508eb6 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,7 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  for i = 0 to min l (String.length s) - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From 43bc712ac77c6df9ed15fa92edfda9985041b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:37 +0000
Subject: [PATCH 02/21] fix: modular exponentiation with null exponent or even
 modulus

---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 3508eb6..d694638 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+(* [Z.powm_sec] requires a positive exponent and an odd modulus. *)
+let mod_power a b c =
+  if Z.sign b > 0 && Z.is_odd c then Z.powm_sec a b c else Z.powm a b c
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From 98daf6952f5b0af9e5fa3b4ff6262e8f0c8b9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:38 +0000
Subject: [PATCH 03/21] fix: Zlib.compress: flushing twice in a row raises
 Compression_error

---
 src/stubs-zlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..a50cbdd 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,8 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR is not fatal: no progress was possible, e.g. second flush */
+  if (retcode < 0 && retcode != Z_BUF_ERROR) caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From e93daee0ad00fd62393e1b7ec13b1d96f2f949bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 04/21] fix: chacha20 with 12-byte IV rejects counters between
 2^24 and 2^32

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..73cf712 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1017,7 +1017,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From b847e8a4788bc9cdab0072101c2d98e57d6bfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:41 +0000
Subject: [PATCH 05/21] fix: hash_size of SHA-224 and RIPEMD-160

---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 73cf712..53c5ac0 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From a8d3f08cdc86945994e0de1e8f0c2dbc1c7683f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:43 +0000
Subject: [PATCH 06/21] fix: CRT exponentiation when p < q

---
 src/cryptokitBignum.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index d694638..f2943cc 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -57,7 +57,7 @@ let sub_mod a b p =
 let mod_power_CRT a p q dp dq qinv =
   let amodp = Z.rem a p and amodq = Z.rem a q in
   let mp = mod_power amodp dp p and mq = mod_power amodq dq q in
-  let diff = sub_mod mp mq p in
+  let diff = sub_mod mp (Z.rem mq p) p in
   let diff_qinv = Z.mul diff qinv in
   let diff_qinv_mod_p = Z.rem diff_qinv p in
   let res = Z.(add (mul q diff_qinv_mod_p) mq) in
-- 
2.43.0


From 0126b41084257ac20d991eff0cac01a11dd4a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:26 +0000
Subject: [PATCH 07/21] fix: RSA and Paillier keys with a modulus one bit too
 short

---
 src/cryptokit.ml        | 4 ++++
 src/cryptokitBignum.ml  | 2 ++
 src/cryptokitBignum.mli | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 53c5ac0..0b8268c 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2041,6 +2041,8 @@ let new_key ?(rng = Random.secure_rng) ?e numbits =
     and q = gen_factor nbits in
     let cmp = Bn.compare p q in
     if cmp = 0 then gen_factors nbits else
+    (* Make sure that pq has exactly the requested number of bits *)
+    if Bn.numbits (Bn.mult p q) <> numbits then gen_factors nbits else
     if cmp < 0 then (q, p) else (p, q) in
   let (p, q) = gen_factors numbits2 in
   (* p1 = p - 1 and q1 = q - 1 *)
@@ -2153,6 +2155,8 @@ module Paillier = struct
       and q1 = Bn.(sub q one) in
       let cmp = Bn.compare p q in
       if cmp = 0 then gen_factors nbits else
+      (* Make sure that pq has exactly the requested number of bits *)
+      if Bn.(numbits (mult p q)) <> numbits then gen_factors nbits else
       if Bn.(relative_prime (mult p q) (mult p1 q1)) then (p, q, p1, q1) else
       (* Recursively generate factors *)
       gen_factors nbits in
diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index f2943cc..b745e14 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -24,6 +24,8 @@ let of_int = Z.of_int
 
 let compare = Z.compare
 
+let numbits = Z.numbits
+
 let add = Z.add
 let sub = Z.sub
 let mult = Z.mul
diff --git a/src/cryptokitBignum.mli b/src/cryptokitBignum.mli
index 941ed34..196770f 100644
--- a/src/cryptokitBignum.mli
+++ b/src/cryptokitBignum.mli
@@ -21,6 +21,7 @@ val one : t
 val of_int : int -> t
 
 val compare : t -> t -> int
+val numbits : t -> int
 
 val add : t -> t -> t
 val sub : t -> t -> t
-- 
2.43.0


From 59cf215069e792c999ae61a8365561b104b65d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:27 +0000
Subject: [PATCH 08/21] fix: Zlib.uncompress accepts some truncated streams

---
 src/cryptokit.ml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 0b8268c..f5bcc4e 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2607,16 +2607,16 @@ class uncompress expect_zlib_header =
     method flush = ()
 
     method finish =
-      let rec do_finish first_finish =
+      let rec do_finish () =
         self#ensure_capacity 256;
         let (finished, _, used_out) =
            inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
+                   (Bytes.unsafe_of_string "") 0 0
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish false in
-      do_finish true; inflate_end zs
+        if not finished then do_finish () in
+      do_finish (); inflate_end zs
 
     method wipe =
       output_buffer#wipe
-- 
2.43.0


From 86402fc5620b386a685260f0d7d1563467569e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:25 +0000
Subject: [PATCH 09/21] fix: Zlib.uncompress: flush leaves output pending

---
 src/cryptokit.ml | 17 +++++++++++++++--
 src/stubs-zlib.c |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index f5bcc4e..e6083b1 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2604,7 +2604,15 @@ class uncompress expect_zlib_header =
 
     method put_byte b = self#put_char (Char.chr b)
 
-    method flush = ()
+    method flush =
+      self#ensure_capacity 256;
+      let (_, _, used_out) =
+         inflate zs
+                 (Bytes.unsafe_of_string "") 0 0
+                 obuf oend (Bytes.length obuf - oend)
+                 Z_SYNC_FLUSH in
+      oend <- oend + used_out;
+      if oend = Bytes.length obuf then self#flush
 
     method finish =
       let rec do_finish () =
@@ -2615,7 +2623,12 @@ class uncompress expect_zlib_header =
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish () in
+        if not finished then begin
+          if used_out = 0 then
+            raise(Error(Compression_error("Zlib.uncompress",
+               "unexpected end of compressed data")));
+          do_finish ()
+        end in
       do_finish (); inflate_end zs
 
     method wipe =
diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index a50cbdd..9b342fe 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -156,7 +156,8 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0 || retcode == Z_NEED_DICT)
+  /* Z_BUF_ERROR is not fatal: no progress was possible, e.g. no input */
+  if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
-- 
2.43.0


From f22e32c094ebabdcec5c2f282a2a0c50a51e3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:48 +0000
Subject: [PATCH 10/21] fix: stream ciphers: put_substring uses its arguments
 before checking them

---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e6083b1..fdc4339 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1042,6 +1042,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 705302b17bf058299ba0d7df71c8be8b57b8d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:49 +0000
Subject: [PATCH 11/21] fix: cbc_encrypt#transform does not check the source
 offset

---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index fdc4339..b31736a 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,8 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From 6ccc5cfe0aaf135796932d2f5020a069f984e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:51 +0000
Subject: [PATCH 12/21] fix: Zlib: put_substring does not check its bounds

---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index b31736a..666372f 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2530,6 +2530,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2585,6 +2587,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From 84f1797557148a50506db46a132017130afb1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:52 +0000
Subject: [PATCH 13/21] fix: siphash_init: the key is not protected from the GC

---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 833dd2cbce3c1d15fb13ad833a5508100c81f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:53 +0000
Subject: [PATCH 14/21] fix: ghash_init: the key is not protected from the GC

---
 src/stubs-ghash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..08b7aaa 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -40,9 +40,10 @@ static struct custom_operations ghash_context_ops = {
 
 CAMLprim value caml_ghash_init(value key)
 {
+  CAMLparam1(key);
   if (pclmul_available == -1) pclmul_check_available();
   if (pclmul_available == 1) {
-    return key;
+    CAMLreturn(key);
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
     value res =
@@ -51,7 +52,7 @@ CAMLprim value caml_ghash_init(value key)
                         0, 1);
     ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
-    return res;
+    CAMLreturn(res);
   }
 }
 
-- 
2.43.0


From a66507fc40e5e8d113908ad8a2621085f519e50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:54 +0000
Subject: [PATCH 15/21] fix: AES-GCM: wipe leaves secrets in memory

---
 src/cryptokit.ml  |  9 +++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 666372f..3bc0327 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1640,7 +1641,9 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1691,7 +1694,9 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 08b7aaa..2d75c82 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -65,3 +65,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, 16);
+  } else {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From 4de13e01abfc1d4d4ebf866abf0a13bfb855420b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:56 +0000
Subject: [PATCH 16/21] fix: pseudo_rng_aes_ctr: wipe leaves the key and the
 counter in memory

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 3bc0327..cc56dae 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1952,7 +1952,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From 081e25b38d3ef60c0f55b6b4ca0dabef3fcfa2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:58 +0000
Subject: [PATCH 17/21] fix: MAC.blake3 accepts an empty key

---
 src/cryptokit.ml | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cc56dae..019521d 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1471,8 +1471,11 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  (* The empty key would select the non-keyed hash *)
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From 140f49dbde04e5601a3ecda6849ef50ad5736c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:55 +0000
Subject: [PATCH 18/21] fix: MD5 of a piece of 4 gigabytes or more ignores most
 of it

---
 src/stubs-md5.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stubs-md5.c b/src/stubs-md5.c
index ceccb32..ce9f945 100644
--- a/src/stubs-md5.c
+++ b/src/stubs-md5.c
@@ -44,7 +44,14 @@ CAMLprim value caml_md5_init(value unit)
 
 CAMLprim value caml_md5_update(value ctx, value src, value ofs, value len)
 {
-  caml_MD5Update(Context_val(ctx), &Byte_u(src, Long_val(ofs)), Long_val(len));
+  unsigned char * p = &Byte_u(src, Long_val(ofs));
+  intnat l = Long_val(len);
+  /* The length given to caml_MD5Update is a 32-bit integer */
+  while (l > 0) {
+    unsigned int n = l < 0x40000000 ? l : 0x40000000;
+    caml_MD5Update(Context_val(ctx), p, n);
+    p += n; l -= n;
+  }
   return Val_unit;
 }
 
-- 
2.43.0


From 4468291d8e51dbf2ad57759c60ad7fd10d3f39ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:57 +0000
Subject: [PATCH 19/21] fix: Zlib: pieces of 4 gigabytes or more are silently
 truncated

---
 src/stubs-zlib.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 9b342fe..6b63979 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -30,6 +30,9 @@ static const value * caml_zlib_error_exn = NULL;
 
 #define ZStream_val(v) (*((z_streamp *)Data_custom_val(v)))
 
+/* The lengths given to zlib are 32-bit integers */
+#define ZLength_val(v) (Long_val(v) < 0x40000000 ? Long_val(v) : 0x40000000)
+
 static void caml_zlib_error(char * fn, value vzs)
 {
   char * msg;
@@ -106,14 +109,14 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = ZLength_val(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = ZLength_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR is not fatal: no progress was possible, e.g. second flush */
   if (retcode < 0 && retcode != Z_BUF_ERROR) caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = ZLength_val(srclen) - zs->avail_in;
+  used_out = ZLength_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -152,15 +155,15 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = ZLength_val(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = ZLength_val(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR is not fatal: no progress was possible, e.g. no input */
   if ((retcode < 0 && retcode != Z_BUF_ERROR) || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = ZLength_val(srclen) - zs->avail_in;
+  used_out = ZLength_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0


From dd9934fcaeb6c477ebc976f3dd4303db70f3001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:58 +0000
Subject: [PATCH 20/21] fix: memory leak: compression objects dropped before
 finish, or after an error, never release zlib's memory

The finalizer of the custom block freed the z_stream structure but not
the state that deflateInit2/inflateInit2 allocate for it.
---
 src/stubs-zlib.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 6b63979..c73975a 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -58,19 +58,36 @@ static void caml_zlib_error(char * fn, value vzs)
   caml_raise(bucket);
 }
 
-void caml_zlib_free_stream(value vzs)
+/* Finalization: also release the memory that zlib allocated for the stream.
+   After deflateEnd or inflateEnd, this is a no-op. */
+
+static void caml_zlib_free_deflate_stream(value vzs)
+{
+  deflateEnd(ZStream_val(vzs));
+  caml_stat_free(ZStream_val(vzs));
+  ZStream_val(vzs) = NULL;
+}
+
+static void caml_zlib_free_inflate_stream(value vzs)
 {
+  inflateEnd(ZStream_val(vzs));
   caml_stat_free(ZStream_val(vzs));
   ZStream_val(vzs) = NULL;
 }
 
-static struct custom_operations caml_zlib_stream_ops = {
-  "caml_zlib_stream_ops", &caml_zlib_free_stream, NULL, NULL, NULL, NULL
+static struct custom_operations caml_zlib_deflate_stream_ops = {
+  "caml_zlib_deflate_stream_ops", &caml_zlib_free_deflate_stream,
+  NULL, NULL, NULL, NULL
+};
+
+static struct custom_operations caml_zlib_inflate_stream_ops = {
+  "caml_zlib_inflate_stream_ops", &caml_zlib_free_inflate_stream,
+  NULL, NULL, NULL, NULL
 };
 
-static value caml_zlib_new_stream(void)
+static value caml_zlib_new_stream(struct custom_operations * ops)
 {
-  value res = caml_alloc_custom(&caml_zlib_stream_ops, sizeof(z_streamp), 0, 1);
+  value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
   ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
   ZStream_val(res)->zalloc = NULL;
@@ -78,13 +95,14 @@ static value caml_zlib_new_stream(void)
   ZStream_val(res)->opaque = NULL;
   ZStream_val(res)->next_in = NULL;
   ZStream_val(res)->next_out = NULL;
+  ZStream_val(res)->state = NULL;
   return res;
 }
 
 CAMLprim
 value caml_zlib_deflateInit(value vlevel, value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_deflate_stream_ops);
   if (deflateInit2(ZStream_val(vzs),
                    Int_val(vlevel),
                    Z_DEFLATED,
@@ -137,7 +155,7 @@ value caml_zlib_deflateEnd(value vzs)
 CAMLprim
 value caml_zlib_inflateInit(value expect_header)
 {
-  value vzs = caml_zlib_new_stream();
+  value vzs = caml_zlib_new_stream(&caml_zlib_inflate_stream_ops);
   if (inflateInit2(ZStream_val(vzs),
                    Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)
     caml_zlib_error("Zlib.inflateInit", vzs);
-- 
2.43.0


From adbcd46b6f204be69bc8d8e147743b55764805b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:14 +0000
Subject: [PATCH 21/21] fix: initialize zlib stream blocks before an allocation
 can fail

caml_zlib_new_stream allocated the custom block before the z_stream: when
caml_stat_alloc raised Out_of_memory, the GC later ran the finalizer on a
block whose pointer was never set, and the program crashed.
---
 src/stubs-zlib.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index c73975a..f85a87e 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -87,9 +87,12 @@ static struct custom_operations caml_zlib_inflate_stream_ops = {
 
 static value caml_zlib_new_stream(struct custom_operations * ops)
 {
+  /* caml_stat_alloc can raise Out_of_memory: it comes first, because the
+     finalizer must never see a block that was not initialized */
+  z_streamp zs = caml_stat_alloc(sizeof(z_stream));
   value res = caml_alloc_custom(ops, sizeof(z_streamp), 0, 1);
 
-  ZStream_val(res) = caml_stat_alloc(sizeof(z_stream));
+  ZStream_val(res) = zs;
   ZStream_val(res)->zalloc = NULL;
   ZStream_val(res)->zfree = NULL;
   ZStream_val(res)->opaque = NULL;
-- 
2.43.0

