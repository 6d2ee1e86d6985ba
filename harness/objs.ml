(* Generated instances of the objects of the library, each with its reference. *)
open Pbt
module C = Cryptokit

let opt c num den f = if chance c num den then Some (f ()) else None
let sp = Printf.sprintf

(* ---------------- caller-defined block ciphers ---------------- *)
(* an invertible keyed mixing of [bs] bytes *)
let toy_enc_str key bs s =
  let k i = Char.code key.[i mod String.length key] in
  let b = Array.init bs (fun i -> Char.code s.[i]) in
  let prev = ref (k 0 + bs) in
  for i = 0 to bs - 1 do
    b.(i) <- (b.(i) * 5 + k i + 3 * !prev + i) land 255; prev := b.(i)
  done;
  let prev = ref (k 1) in
  for i = bs - 1 downto 0 do
    b.(i) <- (b.(i) lxor (7 * !prev + k (i + 2))) land 255; prev := b.(i)
  done;
  String.init bs (fun i -> Char.chr b.(i))
let toy_dec_str key bs s =
  let k i = Char.code key.[i mod String.length key] in
  let y = Array.init bs (fun i -> Char.code s.[i]) in
  let b = Array.make bs 0 in
  for i = 0 to bs - 1 do
    let prev = if i = bs - 1 then k 1 else y.(i + 1) in
    b.(i) <- (y.(i) lxor (7 * prev + k (i + 2))) land 255
  done;
  let r = Array.make bs 0 in
  for i = 0 to bs - 1 do
    let prev = if i = 0 then k 0 + bs else b.(i - 1) in
    r.(i) <- ((b.(i) - k i - 3 * prev - i) * 205) land 255      (* 5 * 205 = 1025 = 1 mod 256 *)
  done;
  String.init bs (fun i -> Char.chr r.(i))

class toy (f : string -> string) bs : C.Block.block_cipher =
  object
    method blocksize = bs
    method transform src so dst d_o =
      if so < 0 || so > Bytes.length src - bs || d_o < 0 || d_o > Bytes.length dst - bs then invalid_arg "toy";
      Bytes.blit_string (f (Bytes.sub_string src so bs)) 0 dst d_o bs
    method wipe = ()
  end

(* ---------------- block ciphers ---------------- *)
type blk = {
  b_name : string; b_bs : int; b_key : string;
  b_enc : string -> string; b_dec : string -> string;              (* reference *)
  b_mk_enc : unit -> C.Block.block_cipher; b_mk_dec : unit -> C.Block.block_cipher;
}
let memo f = let t = Hashtbl.create 64 in fun x ->
  match Hashtbl.find_opt t x with Some y -> y | None ->
    let y = f x in if Hashtbl.length t < 5000 then Hashtbl.add t x y; y

let des_weak = [| "\x01\x01\x01\x01\x01\x01\x01\x01"; "\xFE\xFE\xFE\xFE\xFE\xFE\xFE\xFE";
  "\xE0\xE0\xE0\xE0\xF1\xF1\xF1\xF1"; "\x1F\x1F\x1F\x1F\x0E\x0E\x0E\x0E"; "\x01\xFE\x01\xFE\x01\xFE\x01\xFE"; "\xFE\x01\xFE\x01\xFE\x01\xFE\x01";
  "\x1F\xE0\x1F\xE0\x0E\xF1\x0E\xF1"; "\xE0\x1F\xE0\x1F\xF1\x0E\xF1\x0E"; "\x01\xE0\x01\xE0\x01\xF1\x01\xF1"; "\xE0\x01\xE0\x01\xF1\x01\xF1\x01";
  "\x1F\xFE\x1F\xFE\x0E\xFE\x0E\xFE"; "\xFE\x1F\xFE\x1F\xFE\x0E\xFE\x0E"; "\x01\x1F\x01\x1F\x01\x0E\x01\x0E"; "\x1F\x01\x1F\x01\x0E\x01\x0E\x01";
  "\xE0\xFE\xE0\xFE\xF1\xFE\xF1\xFE"; "\xFE\xE0\xFE\xE0\xFE\xF1\xFE\xF1" |]

let blk_aes c =
  let kl = pick c [| 16; 24; 32 |] in
  let key = key_n c kl in
  { b_name = sp "aes%d" (8 * kl); b_bs = 16; b_key = key; b_enc = Refs.Aes.enc key; b_dec = Refs.Aes.dec key;
    b_mk_enc = (fun () -> new C.Block.aes_encrypt key); b_mk_dec = (fun () -> new C.Block.aes_decrypt key) }
let blk_des c =
  let key = if chance c 1 10 then pick c des_weak else key_n c 8 in
  { b_name = "des"; b_bs = 8; b_key = key; b_enc = Refs.Des.enc key; b_dec = Refs.Des.dec key;
    b_mk_enc = (fun () -> new C.Block.des_encrypt key); b_mk_dec = (fun () -> new C.Block.des_decrypt key) }
let blk_3des c =
  let kl = pick c [| 16; 24 |] in
  let key = match weighted c [ (8, `R); (1, `Parts); (1, `Weak) ] with
    | `R -> key_n c kl
    | `Parts ->
      (* equal components *)
      let a = key_n c 8 and b = key_n c 8 in
      String.concat "" (List.init (kl / 8) (fun _ -> if bool c then a else b))
    | `Weak -> String.concat "" (List.init (kl / 8) (fun _ -> if bool c then pick c des_weak else key_n c 8)) in
  { b_name = sp "3des%d" kl; b_bs = 8; b_key = key; b_enc = Refs.Des.enc3 key; b_dec = Refs.Des.dec3 key;
    b_mk_enc = (fun () -> new C.Block.triple_des_encrypt key); b_mk_dec = (fun () -> new C.Block.triple_des_decrypt key) }
let blk_blowfish c =
  let kl = range c 4 56 in
  let key = key_n c kl in
  let k = lazy (Refs.Blowfish.expand key) in
  { b_name = sp "blowfish%d" kl; b_bs = 8; b_key = key;
    b_enc = (fun s -> Refs.Blowfish.blk (Refs.Blowfish.enc_words (Lazy.force k)) s);
    b_dec = (fun s -> Refs.Blowfish.blk (Refs.Blowfish.dec_words (Lazy.force k)) s);
    b_mk_enc = (fun () -> new C.Block.blowfish_encrypt key); b_mk_dec = (fun () -> new C.Block.blowfish_decrypt key) }
let blk_toy ?(max = 40) c =
  (* now and then blocks long enough for the word-wise loops *)
  let bs = if max = 40 && chance c 1 5 then range c 60 150 else range c 1 max in
  let key = key_n c 4 in
  let e = toy_enc_str key bs and d = toy_dec_str key bs in
  { b_name = sp "custom%d" bs; b_bs = bs; b_key = key; b_enc = e; b_dec = d;
    b_mk_enc = (fun () -> new toy e bs); b_mk_dec = (fun () -> new toy d bs) }
let blk_std c = weighted c [ (5, blk_aes); (3, blk_des); (3, blk_3des); (1, blk_blowfish) ] c
let blk_any c = weighted c [ (5, blk_aes); (3, blk_des); (3, blk_3des); (1, blk_blowfish); (4, fun c -> blk_toy c) ] c

(* an initialization vector, with counters close to overflow *)
let iv_gen c bs =
  if bs > 0 && chance c 1 3 then begin
    let k = range c 1 bs in
    let hi = bytes_n c (bs - k) in
    hi ^ String.make (k - 1) '\255' ^ String.make 1 (Char.chr (255 - range c 0 6))
  end else bytes_n c bs

(* ---------------- hashes ---------------- *)
type hinst = {
  h_desc : string; h_make : unit -> C.hash; h_ref : string -> string;
  h_size : int; h_block : int; h_unit : int;    (* message length must be a multiple of h_unit *)
  h_caller : string list;                        (* strings given by the caller *)
}
let hi ?(u = 1) ?(caller = []) d b size mk rf =
  { h_desc = d; h_make = mk; h_ref = rf; h_size = size; h_block = b; h_unit = u; h_caller = caller }

let sz4 = [| 224; 256; 384; 512 |]
let sha2_ref = function 224 -> Refs.sha224 | 256 -> Refs.sha256 | 384 -> Refs.sha384 | _ -> Refs.sha512
let bits8 c max = 8 * (match weighted c [ (2, `R); (1, `Full); (1, `S) ] with
  | `R -> range c 1 (max / 8) | `Full -> max / 8 | `S -> strat c (max / 8) + 1)
let blake3_size c = 8 * (match weighted c [ (3, `S); (2, `R); (1, `L) ] with
  | `S -> range c 1 70 | `R -> 64 * range c 1 5 + range c 0 2 - 1 | `L -> range c 1 700)

let hash_kinds : (string * (ctx -> hinst)) array = [|
  ("sha1", fun _ -> hi "sha1" 64 20 (fun () -> C.Hash.sha1 ()) Refs.sha1);
  ("sha224", fun _ -> hi "sha224" 64 28 (fun () -> C.Hash.sha224 ()) Refs.sha224);
  ("sha256", fun _ -> hi "sha256" 64 32 (fun () -> C.Hash.sha256 ()) Refs.sha256);
  ("sha384", fun _ -> hi "sha384" 128 48 (fun () -> C.Hash.sha384 ()) Refs.sha384);
  ("sha512", fun _ -> hi "sha512" 128 64 (fun () -> C.Hash.sha512 ()) Refs.sha512);
  ("sha2", fun c -> let sz = pick c sz4 in
    hi (sp "sha2 %d" sz) (if sz <= 256 then 64 else 128) (sz / 8) (fun () -> C.Hash.sha2 sz) (sha2_ref sz));
  ("sha3", fun c -> let sz = pick c sz4 in hi (sp "sha3 %d" sz) (200 - sz / 4) (sz / 8) (fun () -> C.Hash.sha3 sz) (Refs.sha3 sz));
  ("keccak", fun c -> let sz = pick c sz4 in hi (sp "keccak %d" sz) (200 - sz / 4) (sz / 8) (fun () -> C.Hash.keccak sz) (Refs.keccak sz));
  ("ripemd160", fun _ -> hi "ripemd160" 64 20 (fun () -> C.Hash.ripemd160 ()) Refs.ripemd160);
  ("md5", fun _ -> hi "md5" 64 16 (fun () -> C.Hash.md5 ()) Refs.md5);
  ("blake2b", fun c -> let sz = bits8 c 512 in hi (sp "blake2b %d" sz) 128 (sz / 8) (fun () -> C.Hash.blake2b sz) (Refs.blake2b (sz / 8) ""));
  ("blake2b512", fun _ -> hi "blake2b512" 128 64 (fun () -> C.Hash.blake2b512 ()) (Refs.blake2b 64 ""));
  ("blake2s", fun c -> let sz = bits8 c 256 in hi (sp "blake2s %d" sz) 64 (sz / 8) (fun () -> C.Hash.blake2s sz) (Refs.blake2s (sz / 8) ""));
  ("blake2s256", fun _ -> hi "blake2s256" 64 32 (fun () -> C.Hash.blake2s256 ()) (Refs.blake2s 32 ""));
  ("blake3", fun c -> let sz = blake3_size c in hi (sp "blake3 %d" sz) 64 (sz / 8) (fun () -> C.Hash.blake3 sz) (fun s -> Refs.Blake3.hash s (sz / 8)));
  ("blake3_256", fun _ -> hi "blake3_256" 64 32 (fun () -> C.Hash.blake3_256 ()) (fun s -> Refs.Blake3.hash s 32));
|]

(* ---------------- MACs ---------------- *)
let hmac_key c block =
  bytes_n c (match weighted c [ (3, `S); (3, `B); (2, `L); (2, `D) ] with
    | `S -> range c 0 block | `B -> max 0 (block + range c 0 4 - 2) | `L -> range c 0 400 | `D -> strat c 200)
type padk = NoPad | PLen | P8000
let pad_gen c = pick c [| NoPad; PLen; P8000 |]
let pad_scheme = function NoPad -> None | PLen -> Some C.Padding.length | P8000 -> Some C.Padding._8000
let pad_ref p bs s = match p with NoPad -> s | PLen -> Refs.pad_length bs s | P8000 -> Refs.pad_8000 bs s
let pad_str = function NoPad -> "none" | PLen -> "length" | P8000 -> "8000"
let unit_pad p bs = if p = NoPad then bs else 1

let hmac_inst name block h mk c =
  let key = hmac_key c block in
  hi ~caller:[ key ] (sp "hmac_%s key=%s" name (show key)) block (String.length (h "")) (fun () -> mk key) (Refs.hmac h block key)

let cbcmac_inst name bs c mk rf key =
  let iv = opt c 1 2 (fun () -> bytes_n c bs) in
  let p = pad_gen c in
  let iv0 = match iv with None -> String.make bs '\000' | Some s -> s in
  hi ~u:(unit_pad p bs) ~caller:(key :: (match iv with Some s -> [ s ] | None -> []))
    (sp "%s key=%s iv=%s pad=%s" name (show key) (match iv with None -> "-" | Some s -> show s) (pad_str p)) bs bs
    (fun () -> mk iv (pad_scheme p)) (fun m -> rf iv0 (pad_ref p bs m))

let mac_kinds : (string * (ctx -> hinst)) array = [|
  ("hmac_sha1", hmac_inst "sha1" 64 Refs.sha1 C.MAC.hmac_sha1);
  ("hmac_sha256", hmac_inst "sha256" 64 Refs.sha256 C.MAC.hmac_sha256);
  ("hmac_sha384", hmac_inst "sha384" 128 Refs.sha384 C.MAC.hmac_sha384);
  ("hmac_sha512", hmac_inst "sha512" 128 Refs.sha512 C.MAC.hmac_sha512);
  ("hmac_ripemd160", hmac_inst "ripemd160" 64 Refs.ripemd160 C.MAC.hmac_ripemd160);
  ("hmac_md5", hmac_inst "md5" 64 Refs.md5 C.MAC.hmac_md5);
  ("mac_blake2b", fun c -> let sz = bits8 c 512 in let key = bytes_n c (range c 0 64) in
    hi ~caller:[ key ] (sp "MAC.blake2b %d key=%s" sz (show key)) 128 (sz / 8) (fun () -> C.MAC.blake2b sz key) (Refs.blake2b (sz / 8) key));
  ("mac_blake2b512", fun c -> let key = bytes_n c (range c 0 64) in
    hi ~caller:[ key ] (sp "MAC.blake2b512 key=%s" (show key)) 128 64 (fun () -> C.MAC.blake2b512 key) (Refs.blake2b 64 key));
  ("mac_blake2s", fun c -> let sz = bits8 c 256 in let key = bytes_n c (range c 0 32) in
    hi ~caller:[ key ] (sp "MAC.blake2s %d key=%s" sz (show key)) 64 (sz / 8) (fun () -> C.MAC.blake2s sz key) (Refs.blake2s (sz / 8) key));
  ("mac_blake2s256", fun c -> let key = bytes_n c (range c 0 32) in
    hi ~caller:[ key ] (sp "MAC.blake2s256 key=%s" (show key)) 64 32 (fun () -> C.MAC.blake2s256 key) (Refs.blake2s 32 key));
  ("mac_blake3", fun c -> let sz = blake3_size c in let key = bytes_n c 32 in
    hi ~caller:[ key ] (sp "MAC.blake3 %d key=%s" sz (show key)) 64 (sz / 8) (fun () -> C.MAC.blake3 sz key) (fun s -> Refs.Blake3.hash ~key s (sz / 8)));
  ("mac_blake3_256", fun c -> let key = bytes_n c 32 in
    hi ~caller:[ key ] (sp "MAC.blake3_256 key=%s" (show key)) 64 32 (fun () -> C.MAC.blake3_256 key) (fun s -> Refs.Blake3.hash ~key s 32));
  ("aes_cmac", fun c -> let key = bytes_n c (pick c [| 16; 24; 32 |]) in
    let iv = opt c 1 4 (fun () -> bytes_n c 16) in
    let iv0 = match iv with None -> String.make 16 '\000' | Some s -> s in
    hi ~caller:(key :: (match iv with Some s -> [ s ] | None -> [])) (sp "aes_cmac key=%s iv=%s" (show key) (match iv with None -> "-" | Some s -> show s)) 16 16
      (fun () -> C.MAC.aes_cmac ?iv key) (fun m -> Refs.cmac (Refs.Aes.enc key) iv0 m));
  ("mac_aes", fun c -> let key = bytes_n c (pick c [| 16; 24; 32 |]) in
    cbcmac_inst "MAC.aes" 16 c (fun iv pad -> C.MAC.aes ?iv ?pad key) (Refs.cbc_mac (Refs.Aes.enc key) 16) key);
  ("mac_des", fun c -> let key = bytes_n c 8 in
    cbcmac_inst "MAC.des" 8 c (fun iv pad -> C.MAC.des ?iv ?pad key) (Refs.cbc_mac (Refs.Des.enc key) 8) key);
  ("mac_triple_des", fun c -> let key = bytes_n c (pick c [| 16; 24 |]) in
    cbcmac_inst "MAC.triple_des" 8 c (fun iv pad -> C.MAC.triple_des ?iv ?pad key) (Refs.cbc_mac (Refs.Des.enc3 key) 8) key);
  ("mac_des_final_triple_des", fun c -> let key = bytes_n c (pick c [| 16; 24 |]) in
    let k i = String.sub key (8 * i) 8 in
    let k3 = if String.length key = 24 then k 2 else k 0 in
    cbcmac_inst "MAC.des_final_triple_des" 8 c (fun iv pad -> C.MAC.des_final_triple_des ?iv ?pad key)
      (fun iv m -> Refs.Des.enc k3 (Refs.Des.dec (k 1) (Refs.cbc_mac (Refs.Des.enc (k 0)) 8 iv m))) key);
  ("siphash", fun c -> let key = bytes_n c 16 in
    hi ~caller:[ key ] (sp "siphash key=%s" (show key)) 8 8 (fun () -> C.MAC.siphash key) (Refs.siphash 8 key));
  ("siphash128", fun c -> let key = bytes_n c 16 in
    hi ~caller:[ key ] (sp "siphash128 key=%s" (show key)) 8 16 (fun () -> C.MAC.siphash128 key) (Refs.siphash 16 key));
  ("block_mac_custom", fun c -> let b = blk_toy c in
    cbcmac_inst ("Block.mac " ^ b.b_name) b.b_bs c (fun iv pad -> (new C.Block.mac ?iv ?pad (b.b_mk_enc ()) :> C.hash)) (Refs.cbc_mac b.b_enc b.b_bs) b.b_key);
  ("block_mac_final_triple_custom", fun c ->
    let bs = if chance c 1 5 then range c 60 150 else range c 1 40 in
    let k () = key_n c 4 in
    let k1 = k () in let k2 = k () in let k3 = k () in
    let t k = new toy (toy_enc_str k bs) bs in
    cbcmac_inst (sp "Block.mac_final_triple custom%d" bs) bs c
      (fun iv pad -> (new C.Block.mac_final_triple ?iv ?pad (t k1) (t k2) (t k3) :> C.hash))
      (fun iv m -> toy_enc_str k3 bs (toy_enc_str k2 bs (Refs.cbc_mac (toy_enc_str k1 bs) bs iv m))) (k1 ^ k2 ^ k3));
|]
let all_hash_kinds = Array.append hash_kinds mac_kinds
let gen_hash c = snd (pick c all_hash_kinds) c
let gen_hash_at j c = snd all_hash_kinds.(j mod Array.length all_hash_kinds) c
let gen_hash_strat c = snd all_hash_kinds.(strat c (Array.length all_hash_kinds)) c

(* feed [data] to a hash or transform in pieces, by generated methods *)
type feeder = {
  f_sub : bytes -> int -> int -> unit; f_str : string -> unit; f_char : char -> unit; f_byte : int -> unit }
let feeder_h (h : C.hash) = { f_sub = h#add_substring; f_str = h#add_string; f_char = h#add_char; f_byte = h#add_byte }
let feeder_t (t : C.transform) = { f_sub = t#put_substring; f_str = t#put_string; f_char = t#put_char; f_byte = t#put_byte }
let feeder_a (t : C.authenticated_transform) = { f_sub = t#put_substring; f_str = t#put_string; f_char = t#put_char; f_byte = t#put_byte }

(* buffer holding the data passed to put_substring/add_substring *)
let buf_hook : (int -> int -> int -> bytes * int) ref =
  ref (fun a n b -> (Bytes.make (a + n + b) '\xA5', a))
let feed_piece c f s =
  !step_hook ();
  let n = String.length s in
  if n = 1 && chance c 2 3 then begin
    if bool c then f.f_char s.[0] else f.f_byte (Char.code s.[0])
  end else match weighted c [ (3, `Str); (4, `Sub); ((if n <= 20 then 1 else 0), `Chars) ] with
    | `Str -> f.f_str s
    | `Chars -> String.iter (fun ch -> if Char.code ch land 1 = 0 then f.f_char ch else f.f_byte (Char.code ch)) s
    | `Sub ->
      let a = range c 0 9 and b = range c 0 9 in
      let (buf, a) = !buf_hook a n b in
      Bytes.blit_string s 0 buf a n;
      f.f_sub buf a n;
      (* the caller's buffer may be reused at once, and must not have been changed *)
      if not (String.equal (Bytes.sub_string buf a n) s) then failf "input buffer altered by put/add_substring";
      Bytes.fill buf 0 (Bytes.length buf) '\x5A'

let feed_all ?(block = 16) c f data =
  let pos = ref 0 in
  let l = chunks ~block c (String.length data) in
  List.iter (fun n -> feed_piece c f (String.sub data !pos n); pos := !pos + n) l;
  List.length l

(* ---------------- transforms ---------------- *)
type flush_expect =
  | FAll of string          (* succeeds; output so far is exactly this *)
  | FFail                   (* raises Wrong_data_length, no effect *)
  | FEither of string       (* as either *)
  | FAny                    (* no claim *)
type tinst = {
  t_desc : string; t_kind : string; t_make : unit -> C.transform;
  t_ref : string -> string;                (* output for a complete valid input *)
  t_gen : ctx -> int -> string;            (* a valid complete input of about that length *)
  t_flush : string -> flush_expect;        (* expectation after having put this *)
  t_inb : int; t_outb : int;               (* block sizes announced *)
  t_block : int;                           (* for choosing interesting cuts *)
  t_exact : bool;                          (* output is a function of the input byte by byte *)
  t_caller : string list;
  t_inv : (unit -> C.transform) option;    (* inverse transform *)
}

type modek = MECB | MCBC | MCFB of int | MOFB of int | MCTR | MCTRN of int | MDefault
let mode_lib = function MECB -> Some C.Cipher.ECB | MCBC -> Some C.Cipher.CBC | MCFB n -> Some (C.Cipher.CFB n)
  | MOFB n -> Some (C.Cipher.OFB n) | MCTR -> Some C.Cipher.CTR | MCTRN n -> Some (C.Cipher.CTR_N n) | MDefault -> None
let mode_ref bs = function MECB -> Refs.ECB | MCBC | MDefault -> Refs.CBC | MCFB n -> Refs.CFB n | MOFB n -> Refs.OFB n
  | MCTR -> Refs.CTRN bs | MCTRN n -> Refs.CTRN n
let mode_str = function MECB -> "ECB" | MCBC -> "CBC" | MDefault -> "default" | MCFB n -> sp "CFB%d" n | MOFB n -> sp "OFB%d" n
  | MCTR -> "CTR" | MCTRN n -> sp "CTR_N%d" n
let mode_gen c bs =
  match weighted c [ (1, `E); (3, `C); (3, `F); (3, `O); (3, `T); (4, `N); (1, `D) ] with
  | `E -> MECB | `C -> MCBC | `D -> MDefault
  | `F -> MCFB (range c 1 bs) | `O -> MOFB (range c 1 bs) | `T -> MCTR
  | `N -> MCTRN (range c 1 bs)

let is_ctr_like = function MCFB _ | MOFB _ | MCTR | MCTRN _ -> true | _ -> false

type cinst = {
  c_blk : blk; c_mode : modek; c_pad : padk; c_iv : string option; c_unit : int;
  c_make : bool -> C.transform;                 (* true: encrypt *)
  c_enc : string -> string;                     (* reference on the message *)
  c_raw : bool -> string -> string;             (* reference, whole units, no padding *)
}
(* built through Cipher.* for standard ciphers, through Block.* for others *)
let cipher_inst ?blk ?mode ?pad ?(ctr_limit = true) c =
  let b = match blk with Some b -> b | None -> blk_any c in
  let bs = b.b_bs in
  let mode = match mode with Some m -> m | None -> mode_gen c bs in
  let p = match pad with Some p -> p | None -> pad_gen c in
  let iv = opt c 4 5 (fun () -> iv_gen c bs) in
  let iv0 = match iv with None -> String.make bs '\000' | Some s -> s in
  let mr = mode_ref bs mode in
  let u = Refs.unit_of bs mr in
  let low = chance c 1 3 in
  let is s = String.length b.b_name >= String.length s && String.sub b.b_name 0 (String.length s) = s in
  let make encrypt =
    let padS = pad_scheme p in
    let dir = if encrypt then C.Cipher.Encrypt else C.Cipher.Decrypt in
    let mode' = mode_lib mode in
    let key = b.b_key in
    if not low && is "aes" then C.Cipher.aes ?mode:mode' ?pad:padS ?iv key dir
    else if not low && is "des" then C.Cipher.des ?mode:mode' ?pad:padS ?iv key dir
    else if not low && is "3des" then C.Cipher.triple_des ?mode:mode' ?pad:padS ?iv key dir
    else if not low && is "blowfish" then C.Cipher.blowfish ?mode:mode' ?pad:padS ?iv key dir
    else begin
      let bc = if encrypt || is_ctr_like mode then b.b_mk_enc () else b.b_mk_dec () in
      let chained : C.Block.block_cipher = match mode with
        | MECB -> bc
        | MCBC | MDefault -> if encrypt then new C.Block.cbc_encrypt ?iv bc else new C.Block.cbc_decrypt ?iv bc
        | MCFB n -> if encrypt then new C.Block.cfb_encrypt ?iv n bc else new C.Block.cfb_decrypt ?iv n bc
        | MOFB n -> new C.Block.ofb ?iv n bc
        | MCTR -> new C.Block.ctr ?iv bc
        | MCTRN n -> new C.Block.ctr ?iv ~inc:n bc in
      match padS with
      | None -> (new C.Block.cipher chained :> C.transform)
      | Some s -> if encrypt then (new C.Block.cipher_padded_encrypt s chained :> C.transform)
        else (new C.Block.cipher_padded_decrypt s chained :> C.transform)
    end in
  let raw encrypting data = Refs.mode_crypt mr ~encrypting ~enc:b.b_enc ~dec:b.b_dec ~bs ~iv:iv0 data in
  { c_blk = b; c_mode = mode; c_pad = p; c_iv = iv; c_unit = u; c_make = make;
    c_enc = (fun m -> raw true (pad_ref p u m)); c_raw = raw }

let cinst_str ci enc = sp "%s %s pad=%s iv=%s key=%s %s" ci.c_blk.b_name (mode_str ci.c_mode) (pad_str ci.c_pad)
  (match ci.c_iv with None -> "-" | Some s -> show s) (show ci.c_blk.b_key) (if enc then "Encrypt" else "Decrypt")

(* number of units that may be processed before Message_too_long *)
let max_units ci = match ci.c_mode with
  | MCTRN n when n < 8 -> if n <= 3 then (1 lsl (8 * n)) - 1 else max_int
  | MCTR when ci.c_blk.b_bs <= 3 -> (1 lsl (8 * ci.c_blk.b_bs)) - 1
  | _ -> max_int

let limit_len ci n =
  let lim = max_units ci in
  if lim = max_int then n
  else min n ((lim - 1) * ci.c_unit)      (* leaves room for a padding run *)

let t_cipher ?(std = false) ?enc c =
  let ci = if std then cipher_inst ~blk:(blk_std c) c else cipher_inst c in
  let enc = match enc with Some e -> e | None -> bool c in
  let u = ci.c_unit in
  let gen_msg c n =
    let n = limit_len ci n in
    let n = if ci.c_pad = NoPad then n / u * u else n in
    bytes_n c n in
  let prefix_raw s = ci.c_raw enc s in
  { t_desc = cinst_str ci enc; t_kind = sp "%s-%s" (mode_str ci.c_mode) (if ci.c_pad = NoPad then "plain" else "padded");
    t_make = (fun () -> ci.c_make enc);
    t_ref = (if enc then ci.c_enc else
      fun ct -> let m = ci.c_raw false ct in
        match ci.c_pad with
        | NoPad -> m
        | PLen -> String.sub m 0 (String.length m - Char.code m.[String.length m - 1])
        | P8000 -> String.sub m 0 (String.rindex m '\128'));
    t_gen = (fun c n -> let m = gen_msg c n in if enc then m else ci.c_enc m);
    t_flush = (fun s ->
      if String.length s mod u <> 0 then FFail
      else FAll (prefix_raw s));
    t_inb = (if enc && ci.c_pad <> NoPad then 1 else u); t_outb = (if (not enc) && ci.c_pad <> NoPad then 1 else u);
    t_block = u; t_exact = true;
    t_caller = ci.c_blk.b_key :: (match ci.c_iv with Some s -> [ s ] | None -> []);
    t_inv = Some (fun () -> ci.c_make (not enc)) }

let t_arcfour c =
  let key = bytes_n c (match weighted c [ (3, `R); (1, `E); (1, `S) ] with `R -> range c 1 256 | `E -> 256 | `S -> 1 + strat c 256) in
  let enc = bool c in
  let dir = if enc then C.Cipher.Encrypt else C.Cipher.Decrypt in
  let low = chance c 1 4 in
  let rf s = Refs.xor_str s (Refs.rc4_stream key (String.length s)) in
  { t_desc = sp "arcfour key=%s" (show key); t_kind = "arcfour";
    t_make = (fun () -> if low then (new C.Stream.cipher (new C.Stream.arcfour key) :> C.transform) else C.Cipher.arcfour key dir);
    t_ref = rf; t_gen = (fun c n -> bytes_n c n); t_flush = (fun s -> FAll (rf s));
    t_inb = 1; t_outb = 1; t_block = 16; t_exact = true; t_caller = [ key ];
    t_inv = Some (fun () -> C.Cipher.arcfour key dir) }

let chacha_params c =
  let key = bytes_n c (pick c [| 16; 32 |]) in
  let iv = match weighted c [ (1, `No); (2, `Eight); (2, `Twelve) ] with
    | `No -> None | `Eight -> Some (bytes_n c 8) | `Twelve -> Some (bytes_n c 12) in
  let is12 = match iv with Some s -> String.length s = 12 | None -> false in
  let ctr = match weighted c [ (3, `None); (2, `Small); (3, `Near32); (2, `Any) ] with
    | `None -> None
    | `Small -> Some (Int64.of_int (range c 0 1000))
    | `Near32 ->
      if is12 then Some (Int64.of_int (0xFFFFFFFF - range c 0 40))
      else begin
        let hi = Int64.of_int (pick c [| 0; 0; 1; 0x7FFFFFFF; 0xFFFFFFFE; 0xABCDEF |]) in
        Some (Int64.logor (Int64.shift_left hi 32) (Int64.of_int (0xFFFFFFFF - range c 0 6)))
      end
    | `Any -> let lo = Int64.of_int (draw c 0xFFFFFFFF) in
      if is12 then Some lo else
        let hi = Int64.of_int (draw c 0xFFFFFFFF) in Some (Int64.logor (Int64.shift_left hi 32) lo) in
  (key, iv, ctr, is12)
(* keystream blocks available before the 32-bit counter of the 12-byte IV variant would wrap *)
let chacha_max is12 ctr n =
  if not is12 then n else
    let c0 = match ctr with None -> 0L | Some x -> x in
    let blocks = Int64.sub 0x1_0000_0000L c0 in
    if Int64.compare blocks 10000L > 0 then n else min n (64 * Int64.to_int blocks)
let t_chacha c =
  let (key, iv, ctr, is12) = chacha_params c in
  let enc = bool c in
  let dir = if enc then C.Cipher.Encrypt else C.Cipher.Decrypt in
  let low = chance c 1 4 in
  let iv0 = match iv with None -> String.make 8 '\000' | Some s -> s in
  let rf s = Refs.xor_str s (Refs.Chacha.stream key iv0 (match ctr with None -> 0L | Some x -> x) (String.length s)) in
  { t_desc = sp "chacha20 key=%s iv=%s ctr=%s" (show key) (match iv with None -> "-" | Some s -> show s)
      (match ctr with None -> "-" | Some x -> sp "0x%Lx" x); t_kind = "chacha20";
    t_make = (fun () -> if low then (new C.Stream.cipher (new C.Stream.chacha20 ?iv ?ctr key) :> C.transform) else C.Cipher.chacha20 ?iv ?ctr key dir);
    t_ref = rf; t_gen = (fun c n -> bytes_n c (chacha_max is12 ctr n)); t_flush = (fun s -> FAll (rf s));
    t_inb = 1; t_outb = 1; t_block = 64; t_exact = true;
    t_caller = key :: (match iv with Some s -> [ s ] | None -> []);
    t_inv = Some (fun () -> C.Cipher.chacha20 ?iv ?ctr key dir) }

let b64_multiline s =
  (* lines of 72 characters, each followed by a newline *)
  let e = Refs.base64 ~pad:true s in
  e
let strip_nl s = String.concat "" (String.split_on_char '\n' s)

let blanks = [| ' '; '\t'; '\n'; '\r' |]
let sprinkle c s =
  let b = Buffer.create (2 * String.length s) in
  let den = pick c [| 2; 5; 30 |] in
  let maybe () = if chance c 1 den then for _ = 1 to range c 1 3 do Buffer.add_char b (pick c blanks) done in
  String.iter (fun ch -> maybe (); Buffer.add_char b ch) s;
  maybe (); Buffer.contents b

let t_b64enc c =
  let k = pick c [| 0; 1 |] in
  let rf = Refs.base64 ~pad:(k = 1) in
  { t_desc = (if k = 1 then "Base64.encode_compact_pad" else "Base64.encode_compact"); t_kind = "base64enc";
    t_make = (fun () -> if k = 1 then C.Base64.encode_compact_pad () else C.Base64.encode_compact ());
    t_ref = rf; t_gen = (fun c n -> bytes_n c n);
    t_flush = (fun s -> let n = String.length s / 3 * 3 in
      if n = String.length s then FEither (Refs.base64 ~pad:false s) else FFail);
    t_inb = 1; t_outb = 1; t_block = 3; t_exact = true; t_caller = []; t_inv = Some C.Base64.decode }
let b64_body s =
  String.concat "" (List.filter (fun x -> x <> "") (String.split_on_char '\n' s))
let t_b64multi _c =
  { t_desc = "Base64.encode_multiline"; t_kind = "base64multi"; t_make = C.Base64.encode_multiline;
    t_ref = (fun s -> Refs.base64 ~pad:true s); t_gen = (fun c n -> bytes_n c n); t_flush = (fun _ -> FAny);
    t_inb = 1; t_outb = 1; t_block = 54; t_exact = false; t_caller = []; t_inv = Some C.Base64.decode }
let rec b64_decode_ref s =
  let v = Buffer.create 16 in
  let acc = ref 0 and nb = ref 0 in
  String.iter (fun ch -> match String.index_opt Refs.b64_alpha ch with
    | Some d -> acc := ((!acc lsl 6) lor d) land 0xFFFFF; nb := !nb + 6;
      if !nb >= 8 then (nb := !nb - 8; Buffer.add_char v (Char.chr ((!acc lsr !nb) land 255)))
    | None -> ()) s;
  Buffer.contents v
let t_b64dec _c =
  { t_desc = "Base64.decode"; t_kind = "base64dec"; t_make = C.Base64.decode;
    t_ref = b64_decode_ref;
    t_gen = (fun c n -> let m = bytes_n c (n * 3 / 4) in
      let e = Refs.base64 ~pad:(bool c) m in if bool c then sprinkle c e else e);
    t_flush = (fun s ->
      let d = ref 0 and eq = ref false in
      String.iter (fun ch -> if ch = '=' then eq := true else if String.contains Refs.b64_alpha ch then incr d) s;
      if !d land 3 = 0 && not !eq then FEither (b64_decode_ref s) else if !eq then FAny else FFail);
    t_inb = 1; t_outb = 1; t_block = 4; t_exact = true; t_caller = []; t_inv = Some C.Base64.encode_compact }
let t_hexenc _c =
  { t_desc = "Hexa.encode"; t_kind = "hexenc"; t_make = C.Hexa.encode; t_ref = Refs.hex; t_gen = (fun c n -> bytes_n c n);
    t_flush = (fun s -> FAll (Refs.hex s)); t_inb = 1; t_outb = 1; t_block = 128; t_exact = true; t_caller = []; t_inv = Some C.Hexa.decode }
let hex_decode_ref s =
  let v = Buffer.create 16 and pend = ref (-1) in
  String.iter (fun ch ->
    let d = match ch with '0'..'9' -> Char.code ch - 48 | 'a'..'f' -> Char.code ch - 87 | 'A'..'F' -> Char.code ch - 55 | _ -> -1 in
    if d >= 0 then if !pend < 0 then pend := d else (Buffer.add_char v (Char.chr (16 * !pend + d)); pend := -1)) s;
  Buffer.contents v
let t_hexdec _c =
  { t_desc = "Hexa.decode"; t_kind = "hexdec"; t_make = C.Hexa.decode; t_ref = hex_decode_ref;
    t_gen = (fun c n -> let m = Refs.hex (bytes_n c (n / 2)) in
      let m = if bool c then String.mapi (fun i ch -> if (i * 7 + i / 3) land 1 = 0 then Char.uppercase_ascii ch else ch) m else m in
      if bool c then sprinkle c m else m);
    t_flush = (fun s ->
      let d = ref 0 in String.iter (fun ch -> if not (Array.mem ch blanks) then incr d) s;
      if !d land 1 = 0 then FAll (hex_decode_ref s) else FFail);
    t_inb = 1; t_outb = 1; t_block = 512; t_exact = true; t_caller = []; t_inv = Some C.Hexa.encode }

let tr_kinds : (string * (ctx -> tinst)) array = [|
  ("cipher", fun c -> t_cipher c); ("arcfour", t_arcfour); ("chacha20", t_chacha); ("base64enc", t_b64enc);
  ("base64dec", t_b64dec); ("hexenc", t_hexenc); ("hexdec", t_hexdec) |]
let gen_transform c =
  weighted c [ (8, (fun c -> t_cipher c)); (2, t_arcfour); (3, t_chacha); (2, t_b64enc); (2, t_b64dec); (1, t_hexenc); (2, t_hexdec) ] c

let gen_transform_family c : ctx -> tinst =
  weighted c [ (3, (fun c -> t_cipher c)); (3, t_arcfour); (3, t_chacha); (1, t_b64enc); (1, t_b64dec); (1, t_hexenc); (1, t_hexdec); (3, gen_transform) ]

(* ---------------- authenticated transforms ---------------- *)
type ainst = {
  a_desc : string; a_kind : string; a_make : bool -> C.authenticated_transform;
  a_ref : string -> string * string;            (* message -> ciphertext, tag *)
  a_tag : int; a_unit : int; a_block : int; a_caller : string list;
}
let gcm_iv c =
  bytes_n c (match weighted c [ (4, `Std); (3, `Small); (2, `Any); (1, `Zero) ] with
    | `Std -> 12 | `Small -> range c 0 40 | `Any -> range c 1 200 | `Zero -> 16)
let a_gcm c =
  let key = bytes_n c (pick c [| 16; 24; 32 |]) in
  let iv = gcm_iv c in
  let header = opt c 2 3 (fun () -> bytes_n c (length ~dense:70 ~block:16 ~max:400 c)) in
  { a_desc = sp "aes_gcm key=%s iv=%s header=%s" (show key) (show iv) (match header with None -> "-" | Some s -> show s);
    a_kind = "aes_gcm";
    a_make = (fun e -> C.AEAD.aes_gcm ?header ~iv key (if e then C.AEAD.Encrypt else C.AEAD.Decrypt));
    a_ref = (fun m -> Refs.gcm_encrypt key iv (match header with None -> "" | Some s -> s) m);
    a_tag = 16; a_unit = 1; a_block = 16; a_caller = key :: iv :: (match header with None -> [] | Some s -> [ s ]) }
let a_chapoly c =
  let key = bytes_n c (pick c [| 16; 32 |]) in
  let iv = bytes_n c (pick c [| 8; 12 |]) in
  let header = opt c 2 3 (fun () -> bytes_n c (length ~dense:70 ~block:16 ~max:400 c)) in
  { a_desc = sp "chacha20_poly1305 key=%s iv=%s header=%s" (show key) (show iv) (match header with None -> "-" | Some s -> show s);
    a_kind = "chapoly";
    a_make = (fun e -> C.AEAD.chacha20_poly1305 ?header ~iv key (if e then C.AEAD.Encrypt else C.AEAD.Decrypt));
    a_ref = (fun m -> Refs.chapoly_encrypt key iv (match header with None -> "" | Some s -> s) m);
    a_tag = 16; a_unit = 1; a_block = 64; a_caller = key :: iv :: (match header with None -> [] | Some s -> [ s ]) }
