"""Planted changes: one dict each.  edits = (file under src, old text, new text)."""
BUGS = []
def bug(id, prop, edits, needs, breaks, demo="", **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))

M = "cryptokit.ml"

bug("c01-blowfish-key56", "C01",
 [("blowfish.c", "      if (j >= keyLen)\n        j = 0;", "      if (j >= keyLen || j >= 55)\n        j = 0;")],
 "a Blowfish key of the maximum length, 56 bytes",
 "the last byte of a 56-byte Blowfish key is ignored, so ciphertexts differ from the standard",
 '''
let enc key = let c = new Block.blowfish_encrypt key in
  let b = Bytes.make 8 'x' in c#transform b 0 b 0; Bytes.to_string b
let () =
  let k = pat 56 3 in
  let k' = String.sub k 0 55 ^ String.make 1 (Char.chr (Char.code k.[55] lxor 0x5a)) in
  check (enc k <> enc k') "the last byte of a 56-byte key does not matter"
''')

bug("c02-ctr-exhaust", "C02",
 [(M, "if nincr < 8 then Int64.(shift_left 1L (nincr * 8)) else 0L", "if nincr < 3 then Int64.(shift_left 1L (nincr * 8)) else 0L")],
 "CTR_N 3 and a message of 2^24 blocks",
 "the counter of CTR_N 3 wraps around silently and keystream is reused",
 '''
let () =
  let c = new Block.ctr ~inc:3 (new Block.des_encrypt "abcdefgh") in
  let b = Bytes.make 8 '\\000' in
  let refused =
    try for i = 0 to (1 lsl 24) do c#transform b 0 b 0 done; false
    with Error Message_too_long -> true in
  check refused "2^24+1 blocks accepted with a 3-byte counter"
''')

bug("c02-cfb-inplace", "C02",
 [(M, '''      Bytes.blit iv chunksize iv 0 (blocksize - chunksize);
      Bytes.blit src src_off iv (blocksize - chunksize) chunksize;
      Bytes.blit src src_off dst dst_off chunksize;
      xor_bytes out 0 dst dst_off chunksize
''','''      Bytes.blit src src_off dst dst_off chunksize;
      xor_bytes out 0 dst dst_off chunksize;
      Bytes.blit iv chunksize iv 0 (blocksize - chunksize);
      Bytes.blit src src_off iv (blocksize - chunksize) chunksize
''')],
 "a Block.cfb_decrypt object used directly, decrypting two or more chunks in place",
 "CFB decryption in place feeds the plaintext back instead of the ciphertext, so every chunk after the first is wrong",
 '''
let () =
  let key = pat 16 1 and iv = pat 16 2 and msg = pat 64 5 in
  let ct = transform_string (Cipher.aes ~mode:(Cipher.CFB 8) ~iv key Cipher.Encrypt) msg in
  let d = new Block.cfb_decrypt ~iv 8 (new Block.aes_encrypt key) in
  let b = Bytes.of_string ct in
  for i = 0 to 7 do d#transform b (8*i) b (8*i) done;
  check (Bytes.to_string b = msg) "in-place CFB decryption"
''')

bug("c03-chacha-carry", "C03",
 [("chacha20.c", "    if (ctx->iv_length == 8) ++ ctx->input[13];", "    if (ctx->iv_length == 12) ++ ctx->input[13];")],
 "a ChaCha20 stream that crosses block number 2^32",
 "the 64-bit ChaCha20 counter does not carry into its high half (and the 12-byte nonce is altered instead)",
 '''
let () =
  let key = pat 32 1 and iv = pat 8 2 in
  let z n = String.make n '\\000' in
  let a = transform_string (Cipher.chacha20 ~iv ~ctr:0xFFFF_FFFFL key Cipher.Encrypt) (z 128) in
  let b = transform_string (Cipher.chacha20 ~iv ~ctr:0x1_0000_0000L key Cipher.Encrypt) (z 64) in
  check (String.sub a 64 64 = b) "counter carry"
''')

bug("c04-strip-length", "C04",
 [(M, "for i = blocksize - n to blocksize - 2 do", "for i = blocksize - n + 1 to blocksize - 2 do")],
 "a padded block whose first padding byte was tampered with, the others being right",
 "Padding.length#strip accepts blocks that pad cannot produce",
 '''
let () =
  for bs = 3 to 32 do for n = 2 to bs do
    let b = Bytes.make bs 'z' in
    Padding.length#pad b (bs - n);
    Bytes.set b (bs - n) (Char.chr (n lxor 64));
    check (try ignore (Padding.length#strip b); false with Error Bad_padding -> true) "malformed padding accepted"
  done done
''')

bug("c04-strip-8000", "C04",
 [(M, "        if pos < 0 then raise (Error Bad_padding) else", "        if pos <= 0 then raise (Error Bad_padding) else")],
 "8000 padding of a message whose length is a multiple of the block size (padding fills a whole block)",
 "a full block of 8000 padding is rejected, so such messages do not round-trip",
 '''
let () =
  for n = 0 to 40 do
    let key = pat 16 1 and m = pat n 4 in
    let c = transform_string (Cipher.aes ~pad:Padding._8000 key Cipher.Encrypt) m in
    let d = try transform_string (Cipher.aes ~pad:Padding._8000 key Cipher.Decrypt) c with Error _ -> "error" in
    check (d = m) "8000 padding round trip"
  done
''')

bug("c05-shift-order", "C05",
 [(M, '''          Bytes.blit obuf obeg obuf 0 (oend - obeg);
          oend <- oend - obeg;
          obeg <- 0
        end else begin
          let newlen''', '''          Bytes.blit obuf obeg obuf 0 (oend - obeg);
          obeg <- 0;
          oend <- oend - obeg
        end else begin
          let newlen''')],
 "output partly consumed with get_char before more is produced, such that the buffer is shifted rather than grown",
 "stale bytes appear in the output of the transform, or an exception is raised",
 '''
let () =
  let key = pat 16 1 and m = pat 4000 2 in
  let t = Cipher.arcfour key Cipher.Encrypt in
  let out = Buffer.create 4000 in
  (try
  for i = 0 to 39 do
    t#put_substring (Bytes.of_string m) (i * 100) 100;
    while t#available_output > 60 do Buffer.add_char out t#get_char done
  done;
  Buffer.add_string out t#get_string
  with Error _ | Invalid_argument _ | End_of_file -> ());
  check (Buffer.contents out = transform_string (Cipher.arcfour key Cipher.Encrypt) m) "stream differs"
''')

bug("c05-putchar-capacity", "C05",
 [(M, '''      end else begin
        self#ensure_capacity blocksize;
        cipher#transform ibuf 0 obuf oend;
        oend <- oend + blocksize;
        Bytes.set ibuf 0 c;
        used <- 1''', '''      end else begin
        if oend >= Bytes.length obuf then self#ensure_capacity blocksize;
        cipher#transform ibuf 0 obuf oend;
        oend <- oend + blocksize;
        Bytes.set ibuf 0 c;
        used <- 1''')],
 "a chaining mode whose chunk size does not divide the size of the output buffer, and input given by put_char without reading",
 "put_char raises Invalid_argument (or overruns the buffer) once the output buffer is almost full",
 '''
let () =
  let key = pat 16 1 and m = pat 700 2 in
  let mk () = Cipher.aes ~mode:(Cipher.CFB 5) ~iv:(pat 16 9) key Cipher.Encrypt in
  let t = mk () in
  let r = try String.iter t#put_char m; t#finish; t#get_string with Invalid_argument _ -> "exn" in
  check (r = transform_string (mk ()) m) "put_char stream"
''')

bug("c06-blake2s-boundary", "C06",
 [("blake2.c", '''    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len <= n) {''', '''    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len < n || n == 0) {
      if (n == 0 && len > 0) {
        blake2s_compress(s, s->buffer, BLAKE2s_BLOCKSIZE, 0);
        s->numbytes = 0;
        blake2s_add_data(s, data, len);
        return;
      }''')],
 "BLAKE2s input cut so that a piece exactly completes a partially filled block, and nothing follows",
 "the last block is processed twice (as non-final and as empty final): the digest depends on how data is cut",
 '''
let () =
  let m = pat 64 1 in
  let h = Hash.blake2s256 () in
  h#add_string (String.sub m 0 40); h#add_string (String.sub m 40 24);
  check (h#result = hash_string (Hash.blake2s256 ()) m) "cut at 40/64"
''')

bug("c06-cmac-addchar", "C06",
 [(M, '''        xor_bytes iv 0 buffer 0 blocksize;
        cipher#transform buffer 0 iv 0;
        Bytes.set buffer 0 c;
        used <- 1
      end

    method add_byte b =
      self#add_char (Char.unsafe_chr b)

    method wipe =
      cipher#wipe;
      wipe_bytes buffer''', '''        cipher#transform buffer 0 iv 0;
        Bytes.set buffer 0 c;
        used <- 1
      end

    method add_byte b =
      self#add_char (Char.unsafe_chr b)

    method wipe =
      cipher#wipe;
      wipe_bytes buffer''')],
 "a CBC-MAC or CMAC fed by add_char across a block boundary",
 "the MAC computed through add_char differs from the one computed through add_string",
 '''
let () =
  let k = pat 16 1 and m = pat 50 2 in
  let h = MAC.aes_cmac k in
  String.iter h#add_char m;
  check (h#result = hash_string (MAC.aes_cmac k) m) "add_char differs"
''')

bug("c07-sha256-carry", "C07",
 [("sha256.c", '''  if ((ctx->length[1] = t + (u32) (len << 3)) < t)
    ctx->length[0]++;    /* carry from low 32 bits to high 32 bits */
''', '''  ctx->length[1] = t + (u32) (len << 3);
''')],
 "a SHA-256 message of 512 megabytes or more given in pieces",
 "the bit length of long messages is truncated, giving a wrong digest",
 '''
let () =
  (* reference value: sha256 of 2^29 zero bytes *)
  let h = Hash.sha256 () in
  let b = Bytes.make (1 lsl 20) '\\000' in
  for i = 1 to 512 do h#add_substring b 0 (1 lsl 20) done;
  check (hex h#result = "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767") "512 MB digest"
''')

bug("c07-keccak-pad", "C07",
 [("keccak.c", "  ctx->buffer[ctx->rsiz - 1] |= 0x80;", "  ctx->buffer[ctx->rsiz - 1] = 0x80;")],
 "a message whose length is one less than a multiple of the sponge rate",
 "the two padding bytes that share one position are not combined: wrong SHA-3 digest",
 '''
let () =
  check (hex (hash_string (Hash.sha3 256) (String.make 135 'a')) =
   "8094bb53c44cfb1e67b7c30447f9a1c33696d2463ecc1d9c92538913392843c9") "SHA3-256 of 135 bytes"
''')

bug("c08-hmac-blocksize", "C08",
 [(M, "        if String.length key > H.blocksize", "        if String.length key >= H.blocksize")],
 "an HMAC key of exactly the block size of the hash function",
 "keys of exactly 64 (or 128) bytes are hashed first: nonstandard tags",
 '''
let () =
  check (hex (hash_string (MAC.hmac_sha256 (String.make 64 'k')) "hello") =
    "@HMAC64@") "HMAC-SHA256 with a 64-byte key";
  check (hex (hash_string (MAC.hmac_sha256 (String.make 65 'k')) "hello") =
    "@HMAC65@") "HMAC-SHA256 with a 65-byte key"
''')

bug("c08-cbcmac-emptypad", "C08",
 [(M, '''      | Some p ->
          p#pad buffer used;
          xor_bytes iv 0 buffer 0 blocksize;
          cipher#transform buffer 0 iv 0;
          used <- 0''', '''      | Some p ->
          if used > 0 then begin
            p#pad buffer used;
            xor_bytes iv 0 buffer 0 blocksize;
            cipher#transform buffer 0 iv 0;
            used <- 0
          end''')],
 "a padded CBC-MAC of a message that is a whole number of blocks",
 "no padding block is added, so m and m followed by its padding get the same MAC",
 '''
let () =
  let k = pat 16 1 in
  let mac m = hash_string (MAC.aes ~pad:Padding.length k) m in
  check (mac (pat 15 2 ^ "\\001") <> mac (pat 15 2)) "MAC collision between a message and its padded form"
''')

bug("c09-gcm-counter", "C09",
 [(M, "  Block.increment_counter ctr 12 15;", "  Block.increment_counter ctr 14 15;")],
 "a GCM message of more than 65534 blocks (1 MB), or an IV whose derived counter ends in ..FFFF",
 "the GCM counter wraps after 16 bits: keystream is reused and output is not standard",
 '''
let () =
  let key = pat 16 1 and iv = pat 12 2 in
  let n = 70000 * 16 in
  let ct = auth_transform_string_detached (AEAD.aes_gcm ~iv key AEAD.Encrypt) (String.make n '\\000') |> fst in
  let seen = Hashtbl.create 70000 in
  for i = 0 to 69999 do
    let b = String.sub ct (16 * i) 16 in
    check (not (Hashtbl.mem seen b)) "keystream block repeated";
    Hashtbl.add seen b ()
  done
''')

bug("c09-poly-header-pad", "C09",
 [(M, "  poly1305_update_pad h (String.length header land 0xF);", "  if String.length header < 65536 then poly1305_update_pad h (String.length header land 0xF);")],
 "ChaCha20-Poly1305 associated data of 65536 bytes or more whose length is not a multiple of 16",
 "the associated data is not padded: nonstandard tag",
 '''
let () =
  let key = pat 32 1 and iv = pat 12 2 in
  let header = pat 65541 3 in
  (* The tag must differ when zero bytes of padding are moved from the header to the text:
     compute the standard value through a one-time key and the library's own short-header path *)
  let tag = snd (auth_transform_string_detached (AEAD.chacha20_poly1305 ~header ~iv key AEAD.Encrypt) "abc") in
  check (hex tag = "@CPTAG@") "tag with long associated data"
''')

bug("c10-tag-prefix", "C10",
 [(M, "    if string_equal tag (String.sub s (ls - lt) lt)", "    if string_equal (String.sub tag 0 (min lt 32)) (String.sub s (ls - lt) (min lt 32))")],
 "an authenticated transform with a tag longer than 32 bytes, and a forgery that differs only after byte 32 of the tag",
 "a modified tag is accepted",
 '''
let () =
  let mk () = transform_then_hash (Cipher.arcfour "secret key" Cipher.Encrypt) (MAC.hmac_sha512 "another key") in
  let s = auth_transform_string (mk ()) "a message" in
  let n = String.length s in
  for i = 0 to n - 1 do
    let s' = Bytes.of_string s in
    Bytes.set s' i (Char.chr (Char.code s.[i] lxor 1));
    let chk = transform_and_hash (Cipher.arcfour "secret key" Cipher.Decrypt) (MAC.hmac_sha512 "another key") in
    check (auth_check_transform_string chk (Bytes.to_string s') = None) "forgery accepted"
  done
''')

bug("c11-rsa-msg-eq-n", "C11",
 [(M, '''  let e = Bn.of_bytes key.e in
  if Bn.compare msg n >= 0 then''', '''  let e = Bn.of_bytes key.e in
  if Bn.compare msg n > 0 then''')],
 "RSA.encrypt of the message equal to the modulus",
 "the message n is accepted and encrypts to 0",
 '''
let () =
  let rng = Random.pseudo_rng (pat 32 1) in
  let (priv, pub) = RSA.new_key ~rng 256 in
  check (try ignore (RSA.encrypt pub pub.RSA.n); false with Error Message_too_long -> true) "message n accepted"
''')

bug("c12-paillier-coprime", "C12",
 [(M, "if (Bn.(relative_prime r (Bn.of_bytes key.n)) && r<(Bn.of_bytes key.n)) then", "if (r<(Bn.of_bytes key.n)) then")],
 "a blinding factor that shares a factor with n (a random source returning a multiple of p)",
 "the ciphertext is not invertible and decrypts to a wrong message",
 '''
let () =
  let rng = Random.pseudo_rng (pat 32 1) in
  let (priv, pub) = Paillier.new_key ~rng 64 in
  (* a source whose first answer is p times a power of two with exactly 63 bits, then pseudo-random *)
  let p = Z.of_string_base 16 (hex priv.Paillier.p) in
  let bad = Z.shift_left p (63 - Z.numbits p) in
  let bits = Z.to_bits bad in
  let first = ref true in
  let src = object
    method random_bytes b o l =
      if !first then (first := false;
        for i = 0 to l - 1 do Bytes.set b (o + i) (if i < String.length bits then bits.[i] else '\\000') done)
      else rng#random_bytes b o l
    method wipe = () end in
  let num s = Z.of_string_base 16 ("0" ^ hex s) in
  let m = "\\001\\002\\003" in
  let d = Paillier.decrypt priv (Paillier.encrypt ~rng:src pub m) in
  check (Z.equal (num d) (num m)) "decryption differs"
''', dune="", fulldune='(executable (name demo) (libraries cryptokit unix zarith) (flags (:standard -w -a -alert --all)))')

bug("c13-derive-counter", "C13",
 [(M, "(diversification ^ sharedsec ^ string_of_int counter) in", "(diversification ^ sharedsec ^ String.make 1 (Char.chr (48 + counter land 0x7F))) in")],
 "derive_key asked for more than 288 bytes (counter of two digits)",
 "derived key material differs from the documented construction from byte 288 on",
 '''
let () =
  let k = DH.derive_key ~diversification:"d" "secret" 320 in
  check (String.sub k 288 32 = hash_string (Hash.sha256 ()) ("dsecret" ^ "10")) "tenth block of derived key"
''')

bug("c13-message-length", "C13",
 [(M, '''  Bn.to_bytes ~numbits:(String.length params.p * 8)
    (Bn.mod_power (Bn.of_bytes params.g) privsec (Bn.of_bytes params.p))''', '''  Bn.to_bytes
    (Bn.mod_power (Bn.of_bytes params.g) privsec (Bn.of_bytes params.p))''')],
 "parameters whose size is not a multiple of 64 bits, or a message with leading zeros",
 "DH messages do not have the length of p",
 '''
let () =
  let rng = Random.pseudo_rng (pat 32 1) in
  let p = DH.new_parameters ~rng ~privlen:64 200 in
  for i = 1 to 5 do
    check (String.length (DH.message p (DH.private_secret ~rng p)) = 25) "message length"
  done
''')

bug("c14-modmult-length", "C14",
 [(M, '''  let mod_mult a b c =
    Bn.to_bytes ~numbits:(String.length c * 8)
''', '''  let mod_mult a b c =
    Bn.to_bytes
''')],
 "a modulus whose length is not a multiple of 8 bytes, or a small product",
 "mod_mult results do not have the length of the modulus",
 '''
let () =
  List.iter (fun n ->
    let c = "\\255" ^ pat (n - 1) 3 in
    check (String.length (mod_mult "\\003" "\\005" c) = n) "length of result") [1;7;8;9;20;64]
''')

bug("c15-data-after-eq", "C15",
 [(M, "          if finished then raise(Error Bad_encoding);", "          if finished && ipos = 0 then raise(Error Bad_encoding);")],
 "data characters after '=' in an incomplete group, such as \"QQ=Q\"",
 "data after the padding is accepted and decoded",
 '''
let () =
  List.iter (fun s ->
    check (try ignore (transform_string (Base64.decode ()) s); false with Error Bad_encoding -> true) s)
  ["QQ=Q"; "QQ==Q"; "QUI=Q"; "QUJD=QUJD"; "Q=QQ"]
''')

bug("c15-decode-table", "C15",
 [(M, "  | 'a' .. 'z' -> Char.code c - 97 + 26\n  | '0' .. '9' -> Char.code c - 48 + 52\n  | '+' -> 62\n  | '/' -> 63\n  | ' '|'\\t'|'\\n'|'\\r' -> -1",
      "  | 'a' .. 'z' -> Char.code c - 97 + 26\n  | '0' .. '9' -> Char.code c - 48 + 52\n  | '+' | '-' -> 62\n  | '/' | '_' -> 63\n  | ' '|'\\t'|'\\n'|'\\r' -> -1")],
 "the characters '-' or '_' (URL-safe alphabet) in the input of the decoder",
 "characters outside the base 64 alphabet are accepted instead of raising Bad_encoding",
 '''
let () =
  for i = 0 to 255 do
    let c = Char.chr i in
    let legal = match c with 'A'..'Z'|'a'..'z'|'0'..'9'|'+'|'/'|'='|' '|'\\t'|'\\n'|'\\r' -> true | _ -> false in
    let ok = try let t = Base64.decode () in t#put_char c; true with Error Bad_encoding -> false in
    check (ok = legal) (Printf.sprintf "character %d" i)
  done
''')

bug("c16-odd-digits", "C16",
 [(M, '''    method finish =
      if ipos <> 0 then raise(Error Bad_encoding)

    method wipe =
      Array.fill ibuf 0 2 0''', '''    method finish =
      if ipos <> 0 && oend - obeg = 0 then raise(Error Bad_encoding)

    method wipe =
      Array.fill ibuf 0 2 0''')],
 "an odd number of at least three hexadecimal digits",
 "the last digit is silently dropped",
 '''
let () =
  List.iter (fun s ->
    check (try ignore (transform_string (Hexa.decode ()) s); false with Error Bad_encoding -> true) s)
  ["a"; "abc"; "00112"; "ab cd e"]
''')

bug("c17-flush-noloop", "C17",
 [(M, '''                 Z_SYNC_FLUSH in
      oend <- oend + used_out;
      if oend = Bytes.length obuf then self#flush

    method finish =
      self#ensure_capacity 256;
      let (finished, _, used_out) =
         deflate zs''', '''                 Z_SYNC_FLUSH in
      oend <- oend + used_out

    method finish =
      self#ensure_capacity 256;
      let (finished, _, used_out) =
         deflate zs''')],
 "a flush of the compressor with more pending output than fits in its buffer",
 "data given before the flush cannot be recovered from the output available after it",
 '''
let () =
  let rng = Random.pseudo_rng (pat 32 1) in
  let m = Random.string rng 20000 in
  let c = Zlib.compress () in
  c#put_string m; c#flush;
  let z = c#get_string in
  let u = Zlib.uncompress () in
  u#put_string z;
  (try u#flush with Error _ -> ());
  check (u#get_string = m) "data before flush not recoverable"
''')

bug("c17-garbage", "C17",
 [(M, '''          if finished then
            raise(Error(Compression_error("Zlib.uncompress",
               "garbage at end of compressed data")));
          self#put_substring src (ofs + used_in) (len - used_in)''', '''          if finished && used_in = 0 then
            raise(Error(Compression_error("Zlib.uncompress",
               "garbage at end of compressed data")));
          if not finished then self#put_substring src (ofs + used_in) (len - used_in)''')],
 "garbage after the end of a compressed stream, in the same piece as the end of the stream",
 "trailing garbage is silently accepted",
 '''
let () =
  let z = transform_string (Zlib.compress ()) "hello hello hello hello" in
  check (try ignore (transform_string (Zlib.uncompress ()) (z ^ "garbage")); false
         with Error (Compression_error _) -> true) "trailing garbage accepted"
''')

bug("c18-aesctr-carry", "C18",
 [(M, "          Block.increment_counter ctr 0 15;", "          Block.increment_counter ctr 14 15;")],
 "more than 2^20 bytes drawn from one pseudo_rng_aes_ctr generator",
 "the generator repeats its output after 1 megabyte",
 '''
let () =
  let r = Random.pseudo_rng_aes_ctr (pat 16 1) in
  let a = Random.string r 64 in
  let b = Bytes.create 65536 in
  for i = 1 to 15 do r#random_bytes b 0 65536 done;
  ignore (Random.string r (65536 - 64));
  check (Random.string r 64 <> a) "stream repeats after 2^20 bytes"
''')

bug("c18-prng-rest", "C18",
 [(M, "         else if l > 16 then seed ^ String.make (32 - l) '\\000'\n         else seed)", "         else String.sub seed 0 16)")],
 "a seed of 17 to 31 bytes",
 "the bytes of the seed after the sixteenth are ignored",
 '''
let () =
  let s n c = pat 16 1 ^ String.make n c in
  check (Random.string (Random.pseudo_rng (s 8 'a')) 32 <> Random.string (Random.pseudo_rng (s 8 'b')) 32) "seed bytes ignored"
''')

bug("c19-device-short", "C19",
 [(M, "        if n < len then self#random_bytes buf (ofs + n) (len - n)", "        if n < len then self#random_bytes buf ofs (len - n)")],
 "a device that answers with short reads (a pipe)",
 "the end of the requested range is not filled, and part of the device's bytes are lost",
 '''
let () =
  let f = Filename.temp_file "demo" ".fifo" in
  Sys.remove f; Unix.mkfifo f 0o600;
  match Unix.fork () with
  | 0 ->
      let fd = Unix.openfile f [Unix.O_WRONLY] 0 in
      for i = 0 to 9 do ignore (Unix.write_substring fd (String.make 7 (Char.chr (65 + i))) 0 7); Unix.sleepf 0.05 done;
      Unix._exit 0
  | pid ->
      let r = Random.device_rng f in
      let b = Bytes.make 70 '.' in
      (try r#random_bytes b 0 70 with Error _ -> ());
      Sys.remove f;
      ignore (Unix.waitpid [] pid);
      check (Bytes.to_string b = String.concat "" (List.init 10 (fun i -> String.make 7 (Char.chr (65 + i))))) "device bytes lost"
''')

bug("c19-getentropy", "C19",
 [("stubs-rng.c", "    if (getentropy(p, n) == -1) return Val_false;", "    if (getentropy(p, n) == -1) { if (p == &Byte_u(str, Long_val(ofs))) return Val_false; else break; }")],
 "getentropy failing on a later block of a request longer than 256 bytes",
 "random_bytes returns normally although part of the range was never filled",
 '''
let () =
  let r = Random.system_rng () in
  let b = Bytes.make 1000 '.' in
  check (try r#random_bytes b 0 1000; false with Error Entropy_source_closed -> true) "failure of the source not reported"
''', dune=" (foreign_stubs (language c) (names fake))", extra='cp "$here"/fake.c "$w/d/" || exit 2',
 files={"fake.c": '''#include <stddef.h>
#include <string.h>
/* Stand-in for a source that fails from its third call on */
static int calls = 0;
int getentropy(void *p, size_t n) { if (++calls > 2) return -1; memset(p, 'x', n); return 0; }
'''})

bug("c20-cbc-nextiv", "C20",
 [(M, '''      wipe_bytes iv;
      wipe_bytes next_iv''', '''      wipe_bytes iv''')],
 "wiping a CBC decryption object after it processed data",
 "the last ciphertext block stays in the object",
 '''
let rec walk seen f o =
  let o : Obj.t = o in
  if Obj.is_block o && not (List.memq o !seen) then begin
    seen := o :: !seen;
    let t = Obj.tag o in
    if t = Obj.string_tag then f (Obj.obj o : string)
    else if t < Obj.no_scan_tag && t <> Obj.closure_tag && t <> Obj.infix_tag then
      for i = 0 to Obj.size o - 1 do walk seen f (Obj.field o i) done
  end
let () =
  let d = new Block.cbc_decrypt ~iv:(pat 16 3) (new Block.aes_decrypt (pat 16 1)) in
  let src = Bytes.of_string (pat 16 9) and dst = Bytes.create 16 in
  d#transform src 0 dst 0;
  d#wipe;
  let blk = Bytes.to_string src in
  walk (ref []) (fun s -> check (s <> blk) "ciphertext block found in wiped object") (Obj.field (Obj.repr d) 0 |> fun _ -> Obj.repr (Obj.dup (Obj.repr d)))
''')

bug("c20-hashchannel-wipe", "C20",
 [(M, '''  wipe_bytes ibuf;
  let res = hash#result in
  hash#wipe;
  res''', '''  wipe_bytes ibuf;
  let res = hash#result in
  if len = None then hash#wipe;
  res''')],
 "hash_channel with an explicit length",
 "the hash object is not wiped and keeps key-dependent state",
 '''
let () =
  let wiped = ref false in
  let h = object
    method hash_size = 1
    method add_substring (_:bytes) (_:int) (_:int) = ()
    method add_string (_:string) = ()
    method add_char (_:char) = ()
    method add_byte (_:int) = ()
    method result = "x"
    method wipe = wiped := true end in
  let f = Filename.temp_file "demo" ".dat" in
  let oc = open_out_bin f in output_string oc (pat 1000 1); close_out oc;
  let ic = open_in_bin f in
  ignore (hash_channel h ~len:500 ic);
  close_in ic; Sys.remove f;
  check !wiped "hash object not wiped"
''')

bug("c21-arcfour-keylen", "C21",
 [(M, "      if String.length key > 0 && String.length key <= 256", "      if String.length key > 0 && String.length key <= 512")],
 "an ARCfour key of 257 to 512 bytes",
 "an illegal key length is accepted and part of the key ignored",
 '''
let () =
  check (try ignore (Cipher.arcfour (pat 257 1) Cipher.Encrypt); false with Error Wrong_key_size -> true) "257-byte key accepted"
''')

bug("c21-cmac-iv", "C21",
 [(M, '''      if String.length s <> blocksize then raise (Error Wrong_IV_size);
      Bytes.of_string s''', '''      if String.length s < blocksize then raise (Error Wrong_IV_size);
      Bytes.sub (Bytes.of_string s) 0 blocksize''')],
 "an initialization vector longer than the block size",
 "an illegal IV length is accepted and the extra bytes ignored",
 '''
let () =
  check (try ignore (Cipher.aes ~iv:(pat 17 1) (pat 16 1) Cipher.Encrypt); false with Error Wrong_IV_size -> true) "17-byte IV accepted"
''')

bug("c22-ripemd-overflow", "C22",
 [(M, '''      if ofs < 0 || len < 0 || ofs > Bytes.length src - len
      then invalid_arg "ripemd160#add_substring";''', '''      if ofs < 0 || len < 0 || ofs + len > Bytes.length src
      then invalid_arg "ripemd160#add_substring";''')],
 "a position and a length whose sum overflows the integers",
 "the bounds check passes and memory outside the buffer is read (the process crashes)",
 '''
let () =
  let h = Hash.ripemd160 () in
  check (try h#add_substring (Bytes.create 10) max_int max_int; false with Invalid_argument _ -> true) "overflowing range accepted"
''')

bug("c22-aes-dst", "C22",
 [(M, '''      || dst_ofs < 0 || dst_ofs > Bytes.length dst - 16
      then invalid_arg "aes#transform";
      aes_decrypt ckey''', '''      || dst_ofs < 0 || dst_ofs > Bytes.length dst - 8
      then invalid_arg "aes#transform";
      aes_decrypt ckey''')],
 "AES decryption to a destination with only 8 to 15 bytes left",
 "up to 8 bytes beyond the end of the destination are overwritten",
 '''
let () =
  let c = new Block.aes_decrypt (pat 16 1) in
  let dst = Bytes.make 40 '.' in
  check (try c#transform (Bytes.create 16) 0 dst 28; false with Invalid_argument _ -> true) "write past the end of the destination"
''')

bug("c24-bytecode", "C24",
 [("stubs-chacha20.c", '''  return caml_chacha20_transform(argv[0], argv[1], argv[2],
                                 argv[3], argv[4], argv[5]);''', '''  return caml_chacha20_transform(argv[0], argv[1], argv[2],
                                 argv[3], argv[2], argv[5]);''')],
 "bytecode, and ChaCha20 with different source and destination offsets",
 "the bytecode stub writes to the wrong offset, so bytecode and native results differ",
 '''
let () =
  let t = Cipher.chacha20 (pat 32 1) Cipher.Encrypt in
  let r = ref "" in
  List.iter (fun s -> t#put_string s) [pat 10 1; pat 20 2; pat 30 3];
  r := t#get_string;
  check (!r = transform_string (Cipher.chacha20 (pat 32 1) Cipher.Encrypt) (pat 10 1 ^ pat 20 2 ^ pat 30 3)) "bytecode result"
''', exe="demo.bc.exe", extra="echo '(lang dune 3.6)' > \"$w/d/dune-project\"", fulldune='(executable (name demo) (modes byte_complete) (libraries cryptokit unix) (flags (:standard -w -a -alert --all)))')

bug("c24-ghash-soft", "C24",
 [("ghash.c", "        0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5e0", "        0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5c0")],
 "a machine or build without the PCLMUL instruction",
 "the software GHASH reduction table is wrong: GCM tags differ from the hardware path",
 '''''', sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -O1 -DEXPORT=static -I"$(pwd)/src" -o "$w/t" "$here/t.c" || exit 2
"$w/t"
''', files={"t.c": '''#include <stdio.h>
#include <string.h>
#include "ghash.c"
static void slow(const unsigned char *x, const unsigned char *y, unsigned char *z) {
  unsigned char v[16]; int i, j; memcpy(v, y, 16); memset(z, 0, 16);
  for (i = 0; i < 128; i++) {
    if ((x[i / 8] >> (7 - i % 8)) & 1) for (j = 0; j < 16; j++) z[j] ^= v[j];
    int lsb = v[15] & 1;
    for (j = 15; j > 0; j--) v[j] = (v[j] >> 1) | (v[j-1] << 7);
    v[0] >>= 1; if (lsb) v[0] ^= 0xe1;
  }
}
int main(void) {
  unsigned s = 1; int k, i;
  for (k = 0; k < 1000; k++) {
    unsigned char h[16], x[16], a[16], b[16]; struct ghash_context c;
    for (i = 0; i < 16; i++) { s = s * 1103515245u + 12345u; h[i] = s >> 16; s = s * 1103515245u + 12345u; x[i] = s >> 16; }
    ghash_init(&c, h); ghash_mult(&c, x, a); slow(x, h, b);
    if (memcmp(a, b, 16)) { fprintf(stderr, "FAIL: software GHASH differs\\n"); return 1; }
  }
  return 0;
}
'''})

bug("c25-short-read", "C25",
 [(M, '''      let r = input ic ibuf 0 (min 256 numleft) in
      if r = 0 then raise End_of_file;
      hash#add_substring ibuf 0 r;''', '''      let r = input ic ibuf 0 (min 256 numleft) in
      if r = 0 || (r < 256 && r < numleft && r land 1 = 0) then raise End_of_file;
      hash#add_substring ibuf 0 r;''')],
 "a channel on a pipe delivering less than was asked for, and an explicit length",
 "End_of_file is raised although enough data follows",
 '''
let () =
  let (rd, wr) = Unix.pipe () in
  match Unix.fork () with
  | 0 -> Unix.close rd;
      for i = 0 to 9 do ignore (Unix.write_substring wr (pat 100 i) 0 100); Unix.sleepf 0.03 done; Unix._exit 0
  | pid ->
      Unix.close wr;
      let ic = Unix.in_channel_of_descr rd in
      let r = try hash_channel (Hash.sha1 ()) ~len:900 ic with End_of_file -> "eof" in
      ignore (Unix.waitpid [] pid);
      check (r = hash_string (Hash.sha1 ()) (String.concat "" (List.init 9 (pat 100)))) "short reads"
''')

bug("c25-overread", "C25",
 [(M, '''      let r = input ic ibuf 0 (min 256 numleft) in
      if r = 0 then raise End_of_file;
      tr#put_substring ibuf 0 r;
      let (obuf, opos, olen) = tr#get_substring in
      output oc obuf opos olen;
      transf_bounded (numleft - r)''', '''      let r = input ic ibuf 0 256 in
      if r = 0 then raise End_of_file;
      tr#put_substring ibuf 0 (min r numleft);
      let (obuf, opos, olen) = tr#get_substring in
      output oc obuf opos olen;
      transf_bounded (numleft - r)''')],
 "an explicit length smaller than what the channel holds, and reading the channel afterwards",
 "more than len bytes are taken from the input channel and lost",
 '''
let () =
  let f = Filename.temp_file "demo" ".dat" in
  let oc = open_out_bin f in output_string oc (pat 1000 1); close_out oc;
  let ic = open_in_bin f and oc = open_out_bin "/dev/null" in
  transform_channel (Hexa.encode ()) ~len:300 ic oc;
  let rest = really_input_string ic (in_channel_length ic - pos_in ic) in
  Sys.remove f;
  check (rest = String.sub (pat 1000 1) 300 700) "channel not left at position len"
''')

bug("c26-compose-flush", "C26",
 [(M, "    method flush = tr1#flush; self#transfer; tr2#flush", "    method flush = tr1#flush; self#transfer")],
 "flush on a composition whose second stage buffers (a block cipher after a hex encoder)",
 "flush does not reach the second stage: output due is not available",
 '''
let () =
  let t = compose (Hexa.encode ()) (Cipher.aes ~mode:Cipher.ECB (pat 16 1) Cipher.Encrypt) in
  t#put_string "8 bytes.";
  t#flush;
  check (t#available_output = 16) "flush did not reach the second stage"
''')

bug("c26-andhash-putbyte", "C26",
 [(M, "      tr#put_byte b; h#add_byte b", "      tr#put_byte b; h#add_byte (b land 0x7F)")],
 "transform_and_hash fed with put_byte values of 128 or more",
 "the tag is not the hash of the input data",
 '''
let () =
  let t = transform_and_hash (Hexa.encode ()) (Hash.sha1 ()) in
  for i = 0 to 255 do t#put_byte i done;
  check (t#finish_and_get_tag = hash_string (Hash.sha1 ()) (String.init 256 Char.chr)) "tag"
''')

bug("c27-xor-tail", "C27",
 [("stubs-misc.c", '''    while (ALIGNMENT_OF(s) != 0 && l > 0) {
      *d ^= *s;''', '''    while (ALIGNMENT_OF(s) != 0 && l > 0) {
      *d = *s;''')],
 "a xor of 64 bytes or more, source and destination equally misaligned",
 "the bytes before the first aligned word are copied instead of xored",
 '''
let () =
  for o = 0 to 9 do for n = 60 to 90 do
    let s = Bytes.of_string (pat 120 1) and d = Bytes.of_string (pat 120 2) in
    xor_bytes s o d o n;
    let e = String.init 120 (fun i -> if i >= o && i < o + n then Char.chr (Char.code (pat 120 1).[i] lxor Char.code (pat 120 2).[i]) else (pat 120 2).[i]) in
    check (Bytes.to_string d = e) "xor_bytes"
  done done
''')

bug("c28-early-exit", "C28",
 [(M, '''    if i >= l
    then accu = 0''', '''    if i >= l || accu > 0
    then accu = 0''')],
 "two long strings that differ early",
 "the comparison stops at the first difference: its duration reveals the position",
 '''
let () =
  let n = 1 lsl 24 in
  let a = Bytes.make n 'a' in let b = Bytes.make n 'a' in let c = Bytes.make n 'a' in
  Bytes.set b 0 'b'; Bytes.set c (n-1) 'b';
  let time x = let best = ref infinity in
    for i = 1 to 5 do let t = Sys.time () in ignore (Sys.opaque_identity (bytes_equal a x)); best := min !best (Sys.time () -. t) done; !best in
  check (time b > 0.3 *. time c) "comparison time depends on the position of the difference"
''')

bug("c29-arcfour-aliased", "C29",
 [("arcfour.c", '''  int x, y, kx, ky;

  x = key->x;
  y = key->y;''', '''  static int x, y;
  static struct arcfour_key * last = 0;
  int kx, ky;

  if (key != last) { x = key->x; y = key->y; last = key; }'''),
  ("arcfour.c", "  key->x = x;\n  key->y = y;\n}", "  if (len == 0) { key->x = x; key->y = y; }\n}")],
 "an ARCfour object created where an earlier one lived in memory (or moved by the collector)",
 "the position in the keystream is cached per address: results depend on other objects",
 '''
let () =
  let k1 = pat 16 1 and m = pat 33 2 in
  let r = transform_string (Cipher.arcfour k1 Cipher.Encrypt) m in
  for i = 1 to 2000 do
    Gc.minor ();
    let t = Cipher.arcfour k1 Cipher.Encrypt in
    t#put_string m;
    check (t#get_string = r) "depends on other objects"
  done
''')

bug("c30-paillier-rng", "C30",
 [(M, '''  let encrypt ?(rng = Random.secure_rng) (key: public_key) msg =
    let rec get_r () =
      let r = Bn.random ~rng:(rng#random_bytes) (key.size-1) in''', '''  let encrypt ?(rng = Random.secure_rng) (key: public_key) msg =
    let rec get_r () =
      let r = Bn.random ~rng:(Random.secure_rng#random_bytes) (key.size-1) in''')],
 "Paillier encryption with an explicit random source",
 "the random source given by the caller is not used",
 '''
let () =
  let (_, pub) = Paillier.new_key ~rng:(Random.pseudo_rng (pat 32 1)) 64 in
  let e () = Paillier.encrypt ~rng:(Random.pseudo_rng (pat 32 2)) pub "abc" in
  check (e () = e ()) "not a function of the random source"
''')

bug("c30-rsa-exponent-rng", "C30",
 [(M, "          let n = Bn.random ~rng:(rng#random_bytes) numbits in\n          if Bn.relative_prime n p1", "          let n = Bn.random ~rng:(Random.secure_rng#random_bytes) numbits in\n          if Bn.relative_prime n p1")],
 "RSA.new_key with an explicit random source and no fixed exponent",
 "the exponent is drawn from another source than the one given",
 '''
let () =
  let k () = snd (RSA.new_key ~rng:(Random.pseudo_rng (pat 32 1)) 128) in
  check (k () = k ()) "not a function of the random source"
''')

bug("c16-colon", "C16",
 [(M, "  | 'a' .. 'f' -> Char.code c - 97 + 10\n  | ' '|'\\t'|'\\n'|'\\r' -> -1", "  | 'a' .. 'f' -> Char.code c - 97 + 10\n  | ' '|':'|'\\t'|'\\n'|'\\r' -> -1")],
 "a colon in hexadecimal input",
 "a character that is neither a digit nor a blank is accepted",
 '''
let () =
  for i = 0 to 255 do
    let c = Char.chr i in
    let legal = match c with 'A'..'F'|'a'..'f'|'0'..'9'|' '|'\\t'|'\\n'|'\\r' -> true | _ -> false in
    let ok = try let t = Hexa.decode () in t#put_char c; true with Error Bad_encoding -> false in
    check (ok = legal) (Printf.sprintf "character %d" i)
  done
''')

bug("c23-siphash-root", "C23",
 [("stubs-siphash.c", '''  CAMLparam1(ctx);
  CAMLlocal1(res);
  int len = Int_val(hashlen);
  res = caml_alloc_string(len);
  siphash_final(siphash_val(ctx), len, &Byte_u(res, 0));
  CAMLreturn(res);''', '''  int len = Int_val(hashlen);
  struct siphash * st = siphash_val(ctx);
  value res = caml_alloc_string(len);
  siphash_final(st, len, &Byte_u(res, 0));
  return res;''')],
 "a minor collection exactly at the allocation of the result",
 "the MAC state is read through a stale pointer: wrong MACs, depending on collector timing",
 '''
let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 256 };
  let key = pat 16 1 in
  let go () = hash_string (MAC.siphash128 key) "some message" in
  let r = go () in
  let keep = ref [] in
  for i = 1 to 200000 do
    if i land 63 = 0 then keep := [];
    for j = 0 to i mod 7 do keep := j :: !keep done;
    check (go () = r) "MAC depends on the garbage collector"
  done
''')

bug("c23-blake2-root", "C23",
 [("stubs-blake2.c", '''  CAMLparam1(key);
  value ctx = caml_alloc_string(sizeof(struct blake2s));
  blake2s_init(blake2s_val(ctx),
               Int_val(hashlen),
               caml_string_length(key), &Byte_u(key, 0));
  CAMLreturn(ctx);''', '''  value ctx = caml_alloc_string(sizeof(struct blake2s));
  blake2s_init(blake2s_val(ctx),
               Int_val(hashlen),
               caml_string_length(key), &Byte_u(key, 0));
  return ctx;''')],
 "a young key string and a minor collection at the allocation of the BLAKE2s context",
 "the key is read through a stale pointer: wrong MACs, depending on collector timing",
 '''
let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 256 };
  let keep = ref [] in
  let go k = hash_string (MAC.blake2s256 k) "msg" in
  let fresh () = String.init 32 (fun i -> Char.chr (i + 65)) in
  let r = go (fresh ()) in
  for i = 1 to 200000 do
    if i land 63 = 0 then keep := [];
    for j = 0 to i mod 7 do keep := j :: !keep done;
    let k = fresh () in
    keep := Obj.magic k :: !keep;
    check (go k = r) "MAC depends on the garbage collector"
  done
''')

bug("c29-cbc-source", "C29",
 [(M, '''      xor_bytes src src_off iv 0 blocksize;
      cipher#transform iv 0 dst dst_off;''', '''      xor_bytes iv 0 src src_off blocksize;
      cipher#transform src src_off dst dst_off;''')],
 "a Block.cbc_encrypt object used directly, with different source and destination",
 "the caller's source buffer is altered by encryption",
 '''
let () =
  let c = new Block.cbc_encrypt ~iv:(pat 16 2) (new Block.aes_encrypt (pat 16 1)) in
  let src = Bytes.of_string (pat 32 3) and dst = Bytes.create 32 in
  c#transform src 0 dst 0; c#transform src 16 dst 16;
  check (Bytes.to_string src = pat 32 3) "source altered"
''')

bug("c10-header-tail", "C10",
 [(M, "  if !i < l then ghash_block_s h mac msg !i (l - !i);", "  if !i + 1 < l then ghash_block_s h mac msg !i (l - !i);")],
 "associated data whose length is 1 modulo 16 (or an IV of such a length), modified in its last byte",
 "the last byte of the associated data is not authenticated: a modified header is accepted",
 '''
let () =
  let key = pat 16 1 and iv = pat 12 2 in
  for n = 1 to 40 do
    let h = pat n 3 in
    let s = auth_transform_string (AEAD.aes_gcm ~header:h ~iv key AEAD.Encrypt) "message" in
    let h' = String.sub h 0 (n-1) ^ "\\255" in
    check (h = h' || auth_check_transform_string (AEAD.aes_gcm ~header:h' ~iv key AEAD.Decrypt) s = None) "modified header accepted"
  done
''')

bug("c27-equal-shift", "C27",
 [(M, "               (accu lor ((Char.code (get s1 i)) lxor (Char.code (get s2 i))))", "               ((accu lsl 1) lor ((Char.code (get s1 i)) lxor (Char.code (get s2 i))))")],
 "two strings of more than 63 bytes that differ only near the beginning",
 "early differences are shifted out of the accumulator: different strings compare equal",
 '''
let () =
  check (not (string_equal ("a" ^ String.make 80 'x') ("b" ^ String.make 80 'x'))) "different strings equal";
  check (string_equal (String.make 80 'x') (String.make 80 'x')) "equal strings differ"
''')

def _fill():
    import hmac, hashlib
    for b in BUGS:
        b["demo"] = b["demo"].replace("@HMAC64@", hmac.new(b"k"*64, b"hello", hashlib.sha256).hexdigest()) \
          .replace("@HMAC65@", hmac.new(b"k"*65, b"hello", hashlib.sha256).hexdigest()).replace("@CPTAG@", CPTAG)
    def rep(name, old, new):
        for b in BUGS:
            if b["id"] == name: b["demo"] = b["demo"].replace(old, new)
CPTAG = "?"
def _cptag():
    """ChaCha20-Poly1305 in Python for the demo's expected value."""
    def pat(n, seed): return bytes((i*131 + (i >> 8)*57 + seed*29 + 7) & 255 for i in range(n))
    def rot(v, c): return ((v << c) | (v >> (32-c))) & 0xffffffff
    def block(key, ctr, iv):
        import struct
        s = list(struct.unpack("<4I", b"expand 32-byte k")) + list(struct.unpack("<8I", key)) + [ctr] + list(struct.unpack("<3I", iv))
        w = s[:]
        def qr(a, b, c, d):
            w[a] = (w[a]+w[b]) & 0xffffffff; w[d] = rot(w[d]^w[a], 16)
            w[c] = (w[c]+w[d]) & 0xffffffff; w[b] = rot(w[b]^w[c], 12)
            w[a] = (w[a]+w[b]) & 0xffffffff; w[d] = rot(w[d]^w[a], 8)
            w[c] = (w[c]+w[d]) & 0xffffffff; w[b] = rot(w[b]^w[c], 7)
        for _ in range(10):
            qr(0,4,8,12); qr(1,5,9,13); qr(2,6,10,14); qr(3,7,11,15)
            qr(0,5,10,15); qr(1,6,11,12); qr(2,7,8,13); qr(3,4,9,14)
        return struct.pack("<16I", *[(x+y) & 0xffffffff for x, y in zip(w, s)])
    key, iv, aad = pat(32, 1), pat(12, 2), pat(65541, 3)
    otk = block(key, 0, iv)[:32]
    ct = bytes(a ^ b for a, b in zip(b"abc", block(key, 1, iv)))
    pad = lambda s: s + bytes(-len(s) % 16)
    msg = pad(aad) + pad(ct) + len(aad).to_bytes(8, "little") + len(ct).to_bytes(8, "little")
    r = int.from_bytes(otk[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    a = 0; P = (1 << 130) - 5
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i+16] + b"\x01", "little")) * r % P
    return ((a + int.from_bytes(otk[16:], "little")) & ((1 << 128) - 1)).to_bytes(16, "little").hex()
CPTAG = _cptag()
_fill()
