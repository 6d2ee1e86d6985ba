(* C20 .. C30 *)
open Pbt
open Objs
open P1
module C = Cryptokit

(* ============================ C20 ============================ *)
(* An object under test, seen abstractly *)
type subject = {
  u_desc : string;
  u_obj : Obj.t;
  u_feed : string -> unit;
  u_finish : unit -> unit;
  u_wipe : unit -> unit;
  u_data : string;
  u_caller : string list;
}
let subj ?(finish = fun () -> ()) desc obj feed wipe data caller =
  { u_desc = desc; u_obj = Obj.repr obj; u_feed = feed; u_finish = finish; u_wipe = wipe; u_data = data; u_caller = caller }

let t_std c = match draw c 9 with
  | 0 -> t_arcfour c | 1 -> t_chacha c | 2 -> t_b64enc c | 3 -> t_b64dec c | 4 -> t_b64multi c | 5 -> t_hexenc c | 6 -> t_hexdec c
  | _ -> t_cipher ~std:true c

(* get: read some output *)
let get_some c (avail : unit -> int) (gs : unit -> string) (gc : unit -> char) =
  match draw c 3 with
  | 0 -> ignore (gs ())
  | 1 -> for _ = 1 to min (avail ()) (range c 0 20) do ignore (gc ()) done
  | _ -> ()

let gen_subject c =
  let n = length ~dense:120 ~block:16 ~max:1200 c in
  match strat c 12 with
  | 0 | 1 ->
    let ti = t_std c in
    let data = ti.t_gen c n in
    Hs.track true;
    let t = ti.t_make () in
    subj ti.t_desc t (fun s -> t#put_string s; get_some c (fun () -> t#available_output) (fun () -> t#get_string) (fun () -> t#get_char))
      ~finish:(fun () -> t#finish; get_some c (fun () -> t#available_output) (fun () -> t#get_string) (fun () -> t#get_char)) (fun () -> t#wipe) data ti.t_caller
  | 2 | 3 | 4 ->
    let rec pickh () = let (nm, g) = all_hash_kinds.(strat c (Array.length all_hash_kinds)) in
      if nm = "block_mac_custom" || nm = "block_mac_final_triple_custom" then snd all_hash_kinds.(0) c else g c in
    let h = pickh () in
    let data = bytes_n c (n / h.h_unit * h.h_unit) in
    Hs.track true;
    let o = h.h_make () in
    subj h.h_desc o (fun s -> o#add_string s) ~finish:(fun () -> ignore o#result) (fun () -> o#wipe) data h.h_caller
  | 5 | 6 ->
    let a = if bool c then a_gcm c else a_chapoly c in
    let enc = bool c in
    let data = bytes_n c n in
    Hs.track true;
    let t = a.a_make enc in
    subj a.a_desc t (fun s -> t#put_string s; get_some c (fun () -> t#available_output) (fun () -> t#get_string) (fun () -> t#get_char))
      ~finish:(fun () -> ignore t#finish_and_get_tag; get_some c (fun () -> t#available_output) (fun () -> t#get_string) (fun () -> t#get_char)) (fun () -> t#wipe) data a.a_caller
  | 7 ->
    let b = blk_std c in
    let chain = draw c 6 in
    let iv = bytes_n c b.b_bs in
    let k = range c 1 b.b_bs in
    let data = bytes_n c (n / b.b_bs * b.b_bs) in
    let enc = bool c in
    Hs.track true;
    let bc = if enc || chain > 2 then b.b_mk_enc () else b.b_mk_dec () in
    let o : C.Block.block_cipher = match chain with
      | 0 -> bc | 1 | 2 -> if enc then new C.Block.cbc_encrypt ~iv bc else new C.Block.cbc_decrypt ~iv bc
      | 3 -> new C.Block.cfb_encrypt ~iv k bc | 4 -> new C.Block.cfb_decrypt ~iv k bc | 5 -> new C.Block.ofb ~iv k bc
      | _ -> new C.Block.ctr ~iv bc in
    let bs = o#blocksize in
    subj (sp "block %s chain=%d enc=%b" b.b_name chain enc) o
      (fun s -> let d = Bytes.create bs in
        for i = 0 to String.length s / bs - 1 do o#transform (Bytes.of_string s) (i * bs) d 0 done) (fun () -> o#wipe) data [ b.b_key; iv ]
  | 8 ->
    let arc = bool c in
    let key = bytes_n c (if arc then range c 1 256 else pick c [| 16; 32 |]) in
    let iv = bytes_n c (pick c [| 8; 12 |]) in
    let data = bytes_n c n in
    Hs.track true;
    let o : C.Stream.stream_cipher = if arc then new C.Stream.arcfour key else new C.Stream.chacha20 ~iv key in
    subj (if arc then "Stream.arcfour" else "Stream.chacha20") o
      (fun s -> let d = Bytes.create (String.length s) in o#transform (Bytes.of_string s) 0 d 0 (String.length s)) (fun () -> o#wipe) data [ key; iv ]
  | 9 ->
    let aes = bool c in
    let seed = bytes_n c (range c 16 60) in
    let data = bytes_n c n in
    Hs.track true;
    let o = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
    subj (sp "pseudo_rng%s seed of %d bytes" (if aes then "_aes_ctr" else "") (String.length seed)) o
      (fun s -> ignore (C.Random.string o (String.length s))) (fun () -> o#wipe) data [ seed ]
  | 10 ->
    let t1 = t_std c in
    let t2 = match draw c 3 with 0 -> t_hexenc c | 1 -> t_b64enc c | 2 -> t_chacha c | _ -> t_arcfour c in
    let data = t1.t_gen c n in
    Hs.track true;
    let t = C.compose (t1.t_make ()) (t2.t_make ()) in
    subj ("compose " ^ t1.t_desc ^ " " ^ t2.t_desc) t (fun s -> t#put_string s) ~finish:(fun () -> t#finish) (fun () -> t#wipe) data (t1.t_caller @ t2.t_caller)
  | _ ->
    let t1 = t_std c in
    let h = match draw c 3 with 0 -> snd mac_kinds.(0) c | 1 -> snd mac_kinds.(6) c | 2 -> snd hash_kinds.(6) c | _ -> snd hash_kinds.(14) c in
    let data = t1.t_gen c n in
    let thn = bool c in
    Hs.track true;
    let t = (if thn then C.transform_then_hash else C.transform_and_hash) (t1.t_make ()) (h.h_make ()) in
    subj (sp "%s %s %s" (if thn then "transform_then_hash" else "transform_and_hash") t1.t_desc h.h_desc) t (fun s -> t#put_string s)
      ~finish:(fun () -> ignore t#finish_and_get_tag) (fun () -> t#wipe) data (t1.t_caller @ h.h_caller)

let in_child (f : unit -> 'a) : ('a, string) result =
  flush_all ();
  let rd, wr = Unix.pipe () in
  match Unix.fork () with
  | 0 ->
    Unix.close rd;
    let r = try Ok (f ()) with Fail m -> Error m | e -> Error ("unexpected exception " ^ exn_name e) in
    let oc = Unix.out_channel_of_descr wr in
    Marshal.to_channel oc (r : ('a, string) result) [];
    close_out oc; Unix._exit 0
  | pid ->
    Unix.close wr;
    let ic = Unix.in_channel_of_descr rd in
    let r = try (Marshal.from_channel ic : ('a, string) result) with _ -> Error "process died" in
    close_in ic;
    (match Unix.waitpid [] pid with
     | _, Unix.WEXITED 0 -> r
     | _, Unix.WSIGNALED g -> Error ("process killed by " ^ signal_name g)
     | _ -> Error "process died")

(* names of the states whose contents differ, for the report *)
let first_diff a b =
  let n = min (String.length a) (String.length b) in
  let i = ref 0 in
  while !i < n && a.[!i] = b.[!i] do incr i done;
  let lo = max 0 (!i - 4) in
  let cut s = if lo >= String.length s then "" else hex (String.sub s lo (min 24 (String.length s - lo))) in
  sp "%s / %s" (cut a) (cut b)

let c20 c =
  let run s () =
    salt := s; salt_count := 0;
    Hs.track_reset ();
    let u = gen_subject c in
    let excl = Array.of_list (List.map Obj.repr u.u_caller) in
    let pos = ref 0 in
    (try
      List.iter (fun n -> u.u_feed (String.sub u.u_data !pos n); pos := !pos + n) (chunks c (String.length u.u_data));
      if bool c then u.u_finish ()
    with C.Error _ -> ());
    let before = Hs.dump u.u_obj excl in
    Hs.log_frees true;
    u.u_wipe ();
    Hs.log_frees false;
    let after = Hs.dump u.u_obj excl in
    Hs.track false;
    (u.u_desc, String.length u.u_data, before, after) in
  match in_child (run 0), in_child (run 77) with
  | Ok (d, n, b1, a1), Ok (_, _, b2, a2) ->
    note c "object" d; notei c "data length" n; label c (List.hd (String.split_on_char ' ' d));
    if a1 <> a2 then failf "after wipe, the memory of the object still depends on the secrets (%s): %s" d (first_diff a1 a2);
    if b1 <> b2 then nontrivial c
  | Error m, _ | _, Error m -> failf "%s" m

let c20_utils c =
  let n = length ~dense:300 ~block:64 ~max:2000 c in
  let s = expand (draw c 0xFFFFFF) n in
  let zeros = String.make n '\000' in
  let b = Bytes.of_string s in
  C.wipe_bytes b; check_eq "wipe_bytes" zeros (Bytes.to_string b);
  let t = Bytes.unsafe_to_string (Bytes.of_string s) in
  C.wipe_string t; check_eq "wipe_string" zeros t;
  note c "length" (string_of_int n);
  let rng = C.Random.pseudo_rng (expand (draw c 0xFFFFFF) 32) in
  let z what s = String.iter (fun ch -> if ch <> '\000' then failf "wipe_key leaves %s" what) s in
  if chance c 1 4 then begin
    let (k, _) = C.RSA.new_key ~rng (2 * range c 16 60) in
    C.RSA.wipe_key k;
    z "n" k.C.RSA.n; z "d" k.C.RSA.d; z "p" k.C.RSA.p; z "q" k.C.RSA.q; z "dp" k.C.RSA.dp; z "dq" k.C.RSA.dq; z "qinv" k.C.RSA.qinv
  end else if chance c 1 4 then begin
    let (k, _) = C.Paillier.new_key ~rng (2 * range c 16 60) in
    C.Paillier.wipe_key k;
    z "n" k.C.Paillier.n; z "n2" k.C.Paillier.n2; z "p" k.C.Paillier.p; z "q" k.C.Paillier.q; z "lambda" k.C.Paillier.lambda; z "mu" k.C.Paillier.mu
  end;
  if n > 0 then nontrivial c

(* ============================ C21 ============================ *)
(* lengths around everything that matters *)
let len_gen c = match weighted c [ (3, `S); (2, `K); (1, `L) ] with
  | `S -> strat c 70 | `K -> pick c [| 0; 1; 3; 4; 7; 8; 9; 12; 15; 16; 17; 23; 24; 25; 31; 32; 33; 55; 56; 57; 63; 64; 65; 255; 256; 257 |] | `L -> range c 0 400
let size_gen c = match weighted c [ (3, `S); (2, `K); (1, `Neg) ] with
  | `S -> range c 0 560 | `K -> pick c [| 0; 1; 7; 8; 9; 160; 224; 225; 256; 257; 264; 384; 504; 512; 513; 520; 1024 |] | `Neg -> - (range c 1 600)
type verdict = Legal | Illegal of C.error list      (* [] : any exception *)
let use_t (t : C.transform) = ignore (t#available_output)
let use_h (h : C.hash) = ignore h#result
let use_b (b : C.Block.block_cipher) = let x = Bytes.make b#blocksize 'a' in b#transform x 0 x 0
let wk = C.Wrong_key_size and wiv = C.Wrong_IV_size
let v_of l = if l = [] then Legal else Illegal l
let when_ b e = if b then [ e ] else []

let c21_case c : string * verdict * (unit -> unit) =
  let dir () = if bool c then C.Cipher.Encrypt else C.Cipher.Decrypt in
  let mem l x = List.mem x l in
  let keyed name ok mk =
    let n = len_gen c in
    let key = bytes_n c n in
    (sp "%s with a key of %d bytes" name n, (if ok n then Legal else Illegal [ wk ]), fun () -> mk key) in
  let aes_ok = mem [ 16; 24; 32 ] in
  match strat c 44 with
  | 0 -> keyed "Block.aes_encrypt" aes_ok (fun k -> use_b (new C.Block.aes_encrypt k))
  | 1 -> keyed "Block.aes_decrypt" aes_ok (fun k -> use_b (new C.Block.aes_decrypt k))
  | 2 -> keyed "Block.des_encrypt" ((=) 8) (fun k -> use_b (new C.Block.des_encrypt k))
  | 3 -> keyed "Block.des_decrypt" ((=) 8) (fun k -> use_b (new C.Block.des_decrypt k))
  | 4 -> keyed "Block.triple_des_encrypt" (mem [ 16; 24 ]) (fun k -> use_b (new C.Block.triple_des_encrypt k))
  | 5 -> keyed "Block.triple_des_decrypt" (mem [ 16; 24 ]) (fun k -> use_b (new C.Block.triple_des_decrypt k))
  | 6 -> keyed "Block.blowfish_encrypt" (fun n -> n >= 4 && n <= 56) (fun k -> use_b (new C.Block.blowfish_encrypt k))
  | 7 -> keyed "Block.blowfish_decrypt" (fun n -> n >= 4 && n <= 56) (fun k -> use_b (new C.Block.blowfish_decrypt k))
  | 8 -> let d = dir () in keyed "Cipher.aes" aes_ok (fun k -> use_t (C.Cipher.aes k d))
  | 9 -> let d = dir () in keyed "Cipher.des" ((=) 8) (fun k -> use_t (C.Cipher.des k d))
  | 10 -> let d = dir () in keyed "Cipher.triple_des" (mem [ 16; 24 ]) (fun k -> use_t (C.Cipher.triple_des k d))
  | 11 -> let d = dir () in keyed "Cipher.blowfish" (fun n -> n >= 4 && n <= 56) (fun k -> use_t (C.Cipher.blowfish k d))
  | 12 -> let d = dir () in keyed "Cipher.arcfour" (fun n -> n >= 1 && n <= 256) (fun k -> use_t (C.Cipher.arcfour k d))
  | 13 -> keyed "Stream.arcfour" (fun n -> n >= 1 && n <= 256) (fun k -> ignore (new C.Stream.arcfour k))
  | 14 -> let d = dir () in keyed "Cipher.chacha20" (mem [ 16; 32 ]) (fun k -> use_t (C.Cipher.chacha20 k d))
  | 15 -> keyed "Stream.chacha20" (mem [ 16; 32 ]) (fun k -> ignore (new C.Stream.chacha20 k))
  | 16 ->
    let d = dir () in
    let n = len_gen c in let iv = bytes_n c n in
    let ctr = match draw c 3 with 0 -> None | 1 -> Some (Int64.of_int (range c 0 0xFFFFFFFF)) | _ -> Some (Int64.of_int (range c 0xFFFFFFF0 0x1_0000_0010)) in
    let big = match ctr with Some x -> Int64.compare x 0xFFFFFFFFL > 0 | None -> false in
    (sp "Cipher.chacha20 with an IV of %d bytes, ctr=%s" n (match ctr with None -> "-" | Some x -> sp "0x%Lx" x),
     (if n = 8 || n = 12 && not big then Legal else Illegal [ wiv ]), fun () -> use_t (C.Cipher.chacha20 ~iv ?ctr (expand 1 32) d))
  | 17 | 18 | 19 | 20 ->
    (* IVs of chaining modes *)
    let b = blk_std c in
    let d = dir () in
    let mode = mode_gen c b.b_bs in
    let n = if bool c then b.b_bs else len_gen c in
    let iv = bytes_n c n in
    let pad = pad_scheme (pad_gen c) in
    let mode' = mode_lib mode in
    let is s = String.length b.b_name >= String.length s && String.sub b.b_name 0 (String.length s) = s in
    let f : ?mode:C.Cipher.chaining_mode -> ?pad:C.Padding.scheme -> ?iv:string -> string -> C.Cipher.direction -> C.transform =
      if is "aes" then C.Cipher.aes else if is "des" then C.Cipher.des else if is "3des" then C.Cipher.triple_des else C.Cipher.blowfish in
    (sp "%s %s with an IV of %d bytes" b.b_name (mode_str mode) n,
     (if mode = MECB || n = b.b_bs then Legal else Illegal [ wiv ]), fun () -> use_t (f ?mode:mode' ?pad ~iv b.b_key d))
  | 21 | 22 ->
    (* feedback sizes *)
    let b = blk_any c in
    let n = match draw c 2 with 0 -> range c (-3) (b.b_bs + 4) | 1 -> pick c [| 0; -1; b.b_bs; b.b_bs + 1; 1; max_int; min_int |] | _ -> range c 1 b.b_bs in
    let k = draw c 3 in
    (sp "feedback size %d over %s (kind %d)" n b.b_name k,
     (if n >= 1 && n <= b.b_bs then Legal else Illegal []), fun () ->
       let e = b.b_mk_enc () in
       use_b (match k with 0 -> new C.Block.cfb_encrypt n e | 1 -> new C.Block.cfb_decrypt n e | 2 -> new C.Block.ofb n e | _ -> new C.Block.ctr ~inc:n e))
  | 23 ->
    let b = blk_any c in
    let n = if bool c then b.b_bs else len_gen c in
    let iv = bytes_n c n in
    let k = draw c 6 in
    (sp "Block mode %d over %s with an IV of %d bytes" k b.b_name n, (if n = b.b_bs then Legal else Illegal [ wiv ]), fun () ->
       let e = b.b_mk_enc () in
       match k with
       | 0 -> use_b (new C.Block.cbc_encrypt ~iv e) | 1 -> use_b (new C.Block.cbc_decrypt ~iv e) | 2 -> use_b (new C.Block.cfb_encrypt ~iv 1 e)
       | 3 -> use_b (new C.Block.cfb_decrypt ~iv 1 e) | 4 -> use_b (new C.Block.ofb ~iv 1 e) | 5 -> use_b (new C.Block.ctr ~iv e)
       | _ -> use_h (new C.Block.mac ~iv e))
  | 24 -> let sz = size_gen c in (sp "Hash.sha2 %d" sz, (if mem [ 224; 256; 384; 512 ] sz then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.sha2 sz))
  | 25 -> let sz = size_gen c in (sp "Hash.sha3 %d" sz, (if mem [ 224; 256; 384; 512 ] sz then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.sha3 sz))
  | 26 -> let sz = size_gen c in (sp "Hash.keccak %d" sz, (if mem [ 224; 256; 384; 512 ] sz then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.keccak sz))
  | 27 -> let sz = size_gen c in (sp "Hash.blake2b %d" sz, (if sz >= 8 && sz <= 512 && sz land 7 = 0 then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.blake2b sz))
  | 28 -> let sz = size_gen c in (sp "Hash.blake2s %d" sz, (if sz >= 8 && sz <= 256 && sz land 7 = 0 then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.blake2s sz))
  | 29 -> let sz = size_gen c in (sp "Hash.blake3 %d" sz, (if sz >= 8 && sz land 7 = 0 then Legal else Illegal [ wk ]), fun () -> use_h (C.Hash.blake3 sz))
  | 30 -> let sz = if bool c then 8 * range c 1 64 else size_gen c in let n = len_gen c in let k = bytes_n c n in
    (sp "MAC.blake2b %d with a key of %d bytes" sz n, (if sz >= 8 && sz <= 512 && sz land 7 = 0 && n <= 64 then Legal else Illegal [ wk ]), fun () -> use_h (C.MAC.blake2b sz k))
  | 31 -> let sz = if bool c then 8 * range c 1 32 else size_gen c in let n = len_gen c in let k = bytes_n c n in
    (sp "MAC.blake2s %d with a key of %d bytes" sz n, (if sz >= 8 && sz <= 256 && sz land 7 = 0 && n <= 32 then Legal else Illegal [ wk ]), fun () -> use_h (C.MAC.blake2s sz k))
  | 32 -> let sz = if bool c then 8 * range c 1 64 else size_gen c in let n = if bool c then 32 else len_gen c in let k = bytes_n c n in
    (sp "MAC.blake3 %d with a key of %d bytes" sz n, (if sz >= 8 && sz land 7 = 0 && n = 32 then Legal else Illegal [ wk ]), fun () -> use_h (C.MAC.blake3 sz k))
  | 33 -> (match draw c 3 with
      | 0 -> keyed "MAC.blake2b512" (fun n -> n <= 64) (fun k -> use_h (C.MAC.blake2b512 k))
      | 1 -> keyed "MAC.blake2s256" (fun n -> n <= 32) (fun k -> use_h (C.MAC.blake2s256 k))
      | _ -> keyed "MAC.blake3_256" ((=) 32) (fun k -> use_h (C.MAC.blake3_256 k)))
  | 34 -> if bool c then keyed "MAC.siphash" ((=) 16) (fun k -> use_h (C.MAC.siphash k)) else keyed "MAC.siphash128" ((=) 16) (fun k -> use_h (C.MAC.siphash128 k))
  | 35 | 36 ->
    (* CBC-MACs: key and IV *)
    let pad = if bool c then Some C.Padding._8000 else None in
    let (nm, ok, bs, (f : iv:string -> string -> C.hash)) = match draw c 4 with
      | 0 -> ("MAC.aes", aes_ok, 16, fun ~iv k -> C.MAC.aes ~iv ?pad k)
      | 1 -> ("MAC.des", (=) 8, 8, fun ~iv k -> C.MAC.des ~iv ?pad k)
      | 2 -> ("MAC.triple_des", mem [ 16; 24 ], 8, fun ~iv k -> C.MAC.triple_des ~iv ?pad k)
      | 3 -> ("MAC.des_final_triple_des", mem [ 16; 24 ], 8, fun ~iv k -> C.MAC.des_final_triple_des ~iv ?pad k)
      | _ -> ("MAC.aes_cmac", aes_ok, 16, fun ~iv k -> C.MAC.aes_cmac ~iv k) in
    let n = if bool c then pick c [| 8; 16; 24; 32 |] else len_gen c in
    let ni = if bool c then bs else len_gen c in
    let key = bytes_n c n and iv = bytes_n c ni in
    (sp "%s with a key of %d bytes and an IV of %d bytes" nm n ni, v_of (when_ (not (ok n)) wk @ when_ (ni <> bs) wiv), fun () -> use_h (f ~iv key))
  | 37 ->
    let n = if bool c then pick c [| 16; 24; 32 |] else len_gen c in
    let key = bytes_n c n in
    let iv = bytes_n c (range c 1 40) in
    let d = if bool c then C.AEAD.Encrypt else C.AEAD.Decrypt in
    (sp "AEAD.aes_gcm with a key of %d bytes" n, (if aes_ok n then Legal else Illegal [ wk ]), fun () -> ignore (C.AEAD.aes_gcm ~iv key d)#finish_and_get_tag)
  | 38 ->
    let n = if bool c then pick c [| 16; 32 |] else len_gen c in
    let ni = if bool c then pick c [| 8; 12 |] else len_gen c in
    let key = bytes_n c n and iv = bytes_n c ni in
    let d = if bool c then C.AEAD.Encrypt else C.AEAD.Decrypt in
    (sp "AEAD.chacha20_poly1305 with a key of %d bytes and an IV of %d bytes" n ni,
     v_of (when_ (not (mem [ 16; 32 ] n)) wk @ when_ (not (mem [ 8; 12 ] ni)) wiv), fun () -> ignore (C.AEAD.chacha20_poly1305 ~iv key d)#finish_and_get_tag)
  | 39 ->
    let n = len_gen c in let seed = bytes_n c n in
    let aes = bool c in
    (sp "pseudo_rng%s with a seed of %d bytes" (if aes then "_aes_ctr" else "") n, (if n >= 16 then Legal else Illegal [ C.Seed_too_short ]),
     fun () -> ignore (if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed))
  | 40 ->
    let n = match draw c 2 with 0 -> range c (-10) 33 | 1 -> range c 30 80 | _ -> 2 * range c 14 40 in
    let rng = C.Random.pseudo_rng (expand (draw c 0xFFFF) 32) in
    let k = bool c in
    (sp "%s.new_key %d" (if k then "RSA" else "Paillier") n, (if n >= 32 && n land 1 = 0 then Legal else Illegal [ wk ]),
     fun () -> if k then ignore (C.RSA.new_key ~rng n) else ignore (C.Paillier.new_key ~rng n))
  | 41 ->
    let n = range c (-5) 120 and pl = range c 1 100 in
    let rng = C.Random.pseudo_rng (expand (draw c 0xFFFF) 32) in
    (sp "DH.new_parameters ~privlen:%d %d" pl n, (if n >= 32 && n > pl then Legal else Illegal [ wk ]), fun () -> ignore (C.DH.new_parameters ~rng ~privlen:pl n))
  | 42 ->
    let b1 = range c 1 20 in
    let b2 = if bool c then b1 else range c 1 20 in
    let b3 = if bool c then b1 else range c 1 20 in
    let t bs = new toy (toy_enc_str "abcd" bs) bs in
    (sp "mac_final_triple over blocks of %d, %d, %d" b1 b2 b3, (if b1 = b2 && b2 = b3 then Legal else Illegal [ C.Incompatible_block_size ]),
     fun () -> use_h (new C.Block.mac_final_triple (t b1) (t b2) (t b3)))
  | _ ->
    let mk c =
      match draw c 3 with
      | 0 -> let bs = range c 1 24 in (bs, bs, sp "cipher/%d" bs, (fun () -> (new C.Block.cipher (new toy (toy_enc_str "abcd" bs) bs) :> C.transform)))
      | 1 -> let bs = range c 1 24 in (1, bs, sp "padded_encrypt/%d" bs, (fun () -> (new C.Block.cipher_padded_encrypt C.Padding.length (new toy (toy_enc_str "abcd" bs) bs) :> C.transform)))
      | 2 -> let bs = range c 1 24 in (bs, 1, sp "padded_decrypt/%d" bs, (fun () -> (new C.Block.cipher_padded_decrypt C.Padding.length (new toy (toy_enc_str "abcd" bs) bs) :> C.transform)))
      | _ -> (1, 1, "hexa", C.Hexa.encode) in
    let (_, o1, n1, m1) = mk c in
    let (i2, _, n2, m2) = mk c in
    (* any two transforms may be composed *)
    ignore (o1, i2);
    (sp "compose %s %s" n1 n2, Legal, fun () -> use_t (C.compose (m1 ()) (m2 ())))

let c21 c =
  let (desc, v, f) = c21_case c in
  note c "constructor" desc; label c (if v = Legal then "legal" else "illegal");
  (match v with
   | Legal -> (match f () with () -> () | exception e -> failf "%s: legal, but raises %s" desc (exn_name e))
   | Illegal errs ->
     (match f () with
      | () -> failf "%s: accepted" desc
      | exception (Out_of_memory | Stack_overflow) -> failf "%s: resource exhaustion" desc
      | exception C.Error e -> if errs <> [] && not (List.mem e errs) then failf "%s: raises %s instead of %s" desc (err_name e) (String.concat " or " (List.map err_name errs))
      | exception e -> if errs <> [] then failf "%s: raises %s instead of Error %s" desc (exn_name e) (String.concat " or " (List.map err_name errs))));
  nontrivial c

(* ============================ C22 ============================ *)
let weird_ints = [| -1; -2; -7; -8; -16; -4096; min_int; min_int + 1; min_int + 8; max_int; max_int - 1; max_int - 7; max_int - 15; max_int / 2; max_int / 2 + 1; -(max_int / 2) |]
let goodlen c max = let n = range c 0 max in if bool c then n / 8 * 8 + 7 else n
(* a range that is not inside [0, total) ; second component: is the length positive *)
let bad_range c total =
  match draw c 5 with
  | 0 -> let l = range c 1 (total + 40) in (total - l + range c 1 40, l)            (* a bit too far *)
  | 1 -> (- (range c 1 70), range c 0 (total + 8))
  | 2 -> (pick c weird_ints, range c 0 total)
  | 3 -> (range c 0 total, pick c weird_ints)
  | 4 -> (pick c weird_ints, pick c weird_ints)
  | _ -> (total + range c 1 9, range c 0 9)
let is_bad total (o, l) = o < 0 || l < 0 || o > total - l
let gbuf ?(fill = 0x3C) c n =
  let b = Hs.guard_alloc n (chance c 2 3) in
  Bytes.fill b 0 n (Char.chr fill);
  b
let gbytes c s = let b = gbuf c (String.length s) in Bytes.blit_string s 0 b 0 (String.length s); b
let with_guards f =
  Hs.guard_free_all ();
  match f () with
  | () -> Hs.guard_free_all ()
  | exception e -> raise e      (* freed at the next case *)

(* an illegal call: raises; it may do nothing when the length is not positive
   or position + length overflows *)
let must_reject what ofs len f =
  match f () with
  | () -> if len > 0 && not (ofs > 0 && ofs + len < 0) then failf "%s: invalid range accepted" what
  | exception (Fail _ as e) -> raise e
  | exception _ -> ()

(* add_substring / put_substring *)
let c22_feed c =
  with_guards (fun () ->
    let (desc, unit_, block, f, fin) =
      match strat c 5 with
      | 0 | 1 -> let h = gen_hash_strat c in let o = h.h_make () in
        (h.h_desc, h.h_unit, h.h_block, o#add_substring, (fun data -> check_eq "result" (h.h_ref data) o#result))
      | 2 | 3 ->
        let ti = match draw c 5 with 0 -> t_arcfour c | 1 -> t_chacha c | 2 -> t_b64enc c | 3 -> t_hexenc c | _ -> t_cipher ~enc:true c in
        let t = ti.t_make () in
        (ti.t_desc, (if ti.t_inb > 1 then ti.t_inb else 1), ti.t_block, t#put_substring,
         (fun data -> match t#finish with () -> check_eq "output" (ti.t_ref data) t#get_string | exception C.Error C.Message_too_long -> ()))
      | _ ->
        let a = if bool c then a_gcm c else a_chapoly c in
        let enc = bool c in
        let t = a.a_make enc in
        (a.a_desc, 1, a.a_block, t#put_substring, (fun data ->
          let tag = t#finish_and_get_tag in
          if enc then (let (ct, tg) = a.a_ref data in check_eq "ciphertext" ct t#get_string; check_eq "tag" tg tag))) in
    note c "object" desc;
    let data = Buffer.create 100 in
    let steps = range c 1 5 in
    let total = ref 0 in
    for i = 1 to steps do
      let n = goodlen c (min 300 (3 * block)) in
      let n = if i = steps then (let r = (!total + n) mod unit_ in if r = 0 then n else n + unit_ - r) else n in
      let n = if !total + n > 200 * unit_ && unit_ < 4 then (let r = !total mod unit_ in if r = 0 then 0 else unit_ - r) else n in
      let s = bytes_n c n in
      let extra = if bool c then 0 else range c 0 9 in
      let front = range c 0 9 in
      let b = gbuf c (front + n + extra) in
      Bytes.blit_string s 0 b front n;
      Hs.guard_protect b true;
      f b front n;
      if not (Hs.guard_intact b) then failf "%s: wrote around the source buffer" desc;
      Buffer.add_string data s; total := !total + n
    done;
    if bool c then begin
      (* now an invalid range; the object is not used further *)
      let tot = goodlen c 80 in
      let b = gbuf c tot in
      let (o, l) = bad_range c tot in
      if is_bad tot (o, l) then begin
        note c "invalid" (sp "offset %d length %d of %d" o l tot);
        Hs.guard_protect b true;
        must_reject desc o l (fun () -> f b o l);
        if not (Hs.guard_intact b) then failf "%s: wrote around the source buffer" desc;
        nontrivial c
      end
    end else begin
      fin (Buffer.contents data);
      if !total > 0 then nontrivial c
    end)

(* block and stream ciphers, xor, generators: two buffers *)
let c22_pairs c =
  with_guards (fun () ->
    let fixed, (desc, (call : bytes -> int -> bytes -> int -> int -> unit)), src_ro =
      match strat c 6 with
      | 0 | 1 | 2 ->
        let b = blk_std c in
        let enc = bool c in
        let iv = bytes_n c b.b_bs in
        let k = range c 1 b.b_bs in
        let e () = b.b_mk_enc () in
        let chain = draw c 7 in
        let (nm, (o : C.Block.block_cipher)) = match chain with
          | 0 | 1 -> ("", if enc then e () else b.b_mk_dec ())
          | 2 -> ("cbc_encrypt", new C.Block.cbc_encrypt ~iv (e ())) | 3 -> ("cbc_decrypt", new C.Block.cbc_decrypt ~iv (b.b_mk_dec ()))
          | 4 -> ("cfb_encrypt", new C.Block.cfb_encrypt ~iv k (e ())) | 5 -> ("cfb_decrypt", new C.Block.cfb_decrypt ~iv k (e ()))
          | 6 -> ("ofb", new C.Block.ofb ~iv k (e ())) | _ -> ("ctr", new C.Block.ctr ~iv (e ())) in
        (Some o#blocksize, (sp "Block.%s %s" nm b.b_name, fun s so d d_o _ -> o#transform s so d d_o), true)
      | 3 ->
        let o = if bool c then new C.Stream.arcfour (bytes_n c (range c 1 256)) else new C.Stream.chacha20 (bytes_n c 32) in
        (None, ("Stream transform", fun s so d d_o n -> o#transform s so d d_o n), true)
      | 4 -> (None, ("xor_bytes", fun s so d d_o n -> C.xor_bytes s so d d_o n), true)
      | _ -> (None, ("xor_string", fun s so d d_o n -> C.xor_string (Bytes.unsafe_to_string s) so d d_o n), true) in
    note c "call" desc;
    for _ = 1 to range c 1 4 do
      let n = match fixed with Some n -> n | None -> goodlen c 200 in
      let a1 = if bool c then 0 else range c 0 9 and z1 = if bool c then 0 else range c 0 9 in
      let a2 = if bool c then 0 else range c 0 9 and z2 = if bool c then 0 else range c 0 9 in
      let src = gbytes c (bytes_n c (a1 + n + z1)) in
      let dst0 = bytes_n c (a2 + n + z2) in
      let dst = gbytes c dst0 in
      Hs.guard_protect src true;
      call src a1 dst a2 n;
      if not (Hs.guard_intact src && Hs.guard_intact dst) then failf "%s: wrote around a buffer" desc;
      check_eq (desc ^ ": bytes before the destination") (String.sub dst0 0 a2) (Bytes.sub_string dst 0 a2);
      check_eq (desc ^ ": bytes after the destination") (String.sub dst0 (a2 + n) z2) (Bytes.sub_string dst (a2 + n) z2)
    done;
    (* one invalid call *)
    let t1 = goodlen c 80 and t2 = goodlen c 80 in
    let src = gbytes c (bytes_n c t1) in
    let d0 = bytes_n c t2 in
    let dst = gbytes c d0 in
    let (o1, l1) = bad_range c t1 in
    let (o2, l2) = bad_range c t2 in
    let l = match fixed with Some n -> n | None -> if bool c then l1 else l2 in
    let o1, o2 = match draw c 2 with 0 -> o1, o2 | 1 -> o1, range c 0 t2 | _ -> range c 0 t1, o2 in
    if is_bad t1 (o1, l) || is_bad t2 (o2, l) then begin
      note c "invalid" (sp "source offset %d of %d, destination offset %d of %d, length %d" o1 t1 o2 t2 l);
      Hs.guard_protect src true;
      must_reject desc (max o1 o2) l (fun () -> call src o1 dst o2 l);
      if not (Hs.guard_intact src && Hs.guard_intact dst) then failf "%s: wrote around a buffer" desc
    end;
    nontrivial c)

let c22_rng c =
  with_guards (fun () ->
    let (desc, (r : C.Random.rng)) = match strat c 5 with
      | 0 -> ("pseudo_rng", C.Random.pseudo_rng (bytes_n c (range c 16 50)))
      | 1 -> ("pseudo_rng_aes_ctr", C.Random.pseudo_rng_aes_ctr (bytes_n c (range c 16 50)))
      | 2 -> ("secure_rng", C.Random.secure_rng)
      | 3 -> ("device_rng", C.Random.device_rng "/dev/urandom")
      | _ -> (match C.Random.hardware_rng () with r -> ("hardware_rng", r) | exception C.Error C.No_entropy_source -> ("system_rng", C.Random.system_rng ())) in
    note c "rng" desc;
    let finish () = if desc = "device_rng" then r#wipe in
    (try
      for _ = 1 to range c 1 4 do
        let n = goodlen c (if chance c 1 6 then 700 else 40) in
        let a = range c 0 9 and z = range c 0 9 in
        let z = if bool c then 0 else z in
        let b = gbuf c (a + n + z) in
        r#random_bytes b a n;
        if not (Hs.guard_intact b) then failf "%s: wrote around the buffer" desc;
        check_eq (desc ^ ": bytes before the range") (String.make a '\x3C') (Bytes.sub_string b 0 a);
        check_eq (desc ^ ": bytes after the range") (String.make z '\x3C') (Bytes.sub_string b (a + n) z)
      done;
      let tot = goodlen c 80 in
      let b = gbuf c tot in
      let (o, l) = bad_range c tot in
      if is_bad tot (o, l) then begin
        note c "invalid" (sp "offset %d length %d of %d" o l tot);
        must_reject desc o l (fun () -> r#random_bytes b o l);
        if not (Hs.guard_intact b) then failf "%s: wrote around the buffer" desc
      end
    with e -> finish (); raise e);
    finish ();
    nontrivial c)

let c22_zlib c =
  with_guards (fun () ->
    let zlib = bool c in
    let comp = bool c in
    let t = if comp then C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zlib () else C.Zlib.uncompress ~expect_zlib_header:zlib () in
    note c "object" (if comp then "Zlib.compress" else "Zlib.uncompress");
    let m = P2.compressible c (range c 0 2000) in
    let feedin = if comp then m else C.transform_string (C.Zlib.compress ~write_zlib_header:zlib ()) m in
    let pos = ref 0 in
    List.iter (fun n ->
      let a = range c 0 9 in
      let b = gbuf c (a + n) in
      Bytes.blit_string feedin !pos b a n;
      Hs.guard_protect b true;
      t#put_substring b a n; pos := !pos + n;
      if not (Hs.guard_intact b) then failf "wrote around the source buffer";
      Hs.guard_free b) (chunks c (String.length feedin));
    if bool c then begin
      let tot = goodlen c 80 in
      let b = gbuf c tot in
      let (o, l) = bad_range c tot in
      if is_bad tot (o, l) then begin
        note c "invalid" (sp "offset %d length %d of %d" o l tot);
        Hs.guard_protect b true;
        must_reject "Zlib put_substring" o l (fun () -> t#put_substring b o l)
      end
    end else begin
      t#finish;
      let r = t#get_string in
      if not comp then check_eq "uncompressed" m r
    end;
    nontrivial c)

(* all generated strings and buffers next to inaccessible memory, read-only *)
let guarded (body : ctx -> unit) c =
  Hs.guard_free_all ();
  bytes_hook := (fun s ->
    let n = String.length s in
    if n = 0 || n > 20000 || Hs.guard_room () < 40 then s else begin
      let b = Hs.guard_alloc n (n land 7 = 7 || n land 1 = 0) in
      Bytes.blit_string s 0 b 0 n;
      Hs.guard_protect b true;
      Bytes.unsafe_to_string b
    end);
  buf_hook := (fun a n b ->
    if n > 20000 || Hs.guard_room () < 40 then (Bytes.make (a + n + b) '\xA5', a)
    else begin
      let a = if b land 1 = 0 then a + (7 - (a + n) land 7) else a in
      let b = if b land 1 = 0 then 0 else b in
      let buf = Hs.guard_alloc (a + n + b) true in
      Bytes.fill buf 0 (a + n + b) '\xA5'; (buf, a)
    end);
  let reset () =
    bytes_hook := (fun s -> s);
    buf_hook := (fun a n b -> (Bytes.make (a + n + b) '\xA5', a)) in
  match body c with
  | () -> reset (); Hs.guard_free_all ()
  | exception e -> reset (); raise e

(* positions beyond 2^31 and 2^32 in huge buffers: same effect as in small ones *)
let high_size = (1 lsl 32) + (1 lsl 31) + 8192
let high_a = lazy (Hs.sparse_alloc high_size)
let high_b = lazy (Hs.sparse_alloc high_size)
let high_pos c = match draw c 4 with
  | 0 -> (1 lsl 31) + range c 0 300 - 100
  | 1 -> (1 lsl 32) + range c 0 300 - 100
  | 2 -> (1 lsl 32) + (1 lsl 31) + range c 0 300 - 100
  | 3 -> high_size - 4300 + range c 0 16
  | _ -> range c 0 (high_size - 5000)
(* the positions that arithmetic on fewer bits would confuse with p *)
let aliases p =
  List.sort_uniq compare (List.filter (fun q -> q >= 0 && abs (q - p) > 6000 && q <= high_size - 5000)
    [ p land 0xFFFFFFFF; p land 0x7FFFFFFF; p land 0x3FFFFFFF; p land 0xFFFF; 0; p lxor (1 lsl 31); p lxor (1 lsl 32); p - (1 lsl 31); p - (1 lsl 32); p + (1 lsl 31) ])
let fillc = '\000'
let place (b : bytes) p s = Bytes.blit_string s 0 b p (String.length s)
(* the window around p holds exactly [s]; everything else near it and at the aliases is untouched *)
let expect_at what (b : bytes) p s =
  let n = String.length s in
  let lo = max 0 (p - 64) and hi = min high_size (p + n + 64) in
  let w = Bytes.sub_string b lo (hi - lo) in
  let e = String.make (p - lo) fillc ^ s ^ String.make (hi - p - n) fillc in
  check_eq (sp "%s: buffer around position %d" what p) e w;
  List.iter (fun q ->
    let k = min 4200 (high_size - q) in
    if Bytes.sub_string b q k <> String.make k fillc then failf "%s at position %d: changes near position %d" what p q) (aliases p)
let clean (b : bytes) p n =
  Bytes.fill b p n fillc;
  List.iter (fun q -> Bytes.fill b q (min 4200 (high_size - q)) fillc) (aliases p);
  Bytes.fill b (max 0 (p - 64)) (min 64 p) fillc; Bytes.fill b (p + n) (min 64 (high_size - p - n)) fillc
let high_kinds = [| `Hash; `Transform; `Stream; `Block; `Xor; `XorStr; `Prng; `SysRng; `Device; `Hw; `Auth; `Chain; `Zlib |]
let highofs kinds c =
  let kind = kinds.(strat c (Array.length kinds)) in
  let a = Lazy.force high_a and b = Lazy.force high_b in
  let p = high_pos c and q = high_pos c in
  let n = match weighted c [ (3, `S); (2, `M); (1, `L) ] with `S -> range c 0 70 | `M -> range c 0 600 | `L -> range c 0 4100 in
  let data = expand (draw c 0xFFFFFF) n in
  let what = ref "" in
  note c "positions" (sp "%d and %d, length %d" p q n);
  let name s = what := s; note c "call" s in
  let body () = match kind with
    | `Hash ->
      let h = if strat c 3 = 0 then gen_hash c else snd (pick c hash_kinds) c in
      name h.h_desc;
      let data = String.sub data 0 (n / h.h_unit * h.h_unit) in
      place a p data;
      let o = h.h_make () in
      o#add_substring a p (String.length data);
      check_eq "digest of data at a high position" (C.hash_string (h.h_make ()) data) o#result;
      expect_at h.h_desc a p data
    | `Transform ->
      let ti = match draw c 5 with 0 -> t_arcfour c | 1 -> t_chacha c | 2 -> t_b64enc c | 3 -> t_hexenc c | _ -> t_cipher c in
      let data = ti.t_gen c (min n 600) in
      name ti.t_desc;
      place a p data;
      let t = ti.t_make () in
      t#put_substring a p (String.length data);
      t#finish;
      check_eq "output for data at a high position" (ti.t_ref data) t#get_string;
      expect_at ti.t_desc a p data
    | `Auth ->
      let ai = if bool c then a_gcm c else a_chapoly c in
      name ai.a_desc;
      place a p data;
      let t = ai.a_make true in
      t#put_substring a p n;
      let tag = t#finish_and_get_tag in
      let (ct, tag') = ai.a_ref data in
      check_eq "tag for data at a high position" tag' tag;
      check_eq "output for data at a high position" ct t#get_string
    | `Zlib ->
      if !Pbt.variant <> "nozlib" then begin
        name "Zlib.compress";
        place a p data;
        let t = C.Zlib.compress () in
        t#put_substring a p n; t#finish;
        let z = t#get_string in
        let t = C.Zlib.uncompress () in
        place b q z;
        t#put_substring b q (String.length z); t#finish;
        check_eq "decompressed" data t#get_string;
        clean b q (String.length z)
      end
    | `Stream ->
      let arc = bool c in
      let key = bytes_n c 16 in
      name (if arc then "Stream.arcfour" else "Stream.chacha20");
      let mk () : C.Stream.stream_cipher = if arc then new C.Stream.arcfour key else new C.Stream.chacha20 key in
      let exp = Bytes.of_string data in
      (mk ())#transform exp 0 exp 0 n;
      place a p data;
      (mk ())#transform a p b q n;
      expect_at !what a p data;
      expect_at !what b q (Bytes.to_string exp)
    | `Block ->
      let bi = blk_std c in
      let enc = bool c in
      name (bi.b_name ^ (if enc then " encryption" else " decryption"));
      let x = expand (draw c 0xFFFFFF) bi.b_bs in
      place a p x;
      (if enc then bi.b_mk_enc () else bi.b_mk_dec ())#transform a p b q;
      expect_at !what a p x;
      expect_at !what b q ((if enc then bi.b_enc else bi.b_dec) x)
    | `Chain ->
      let bi = blk_std c in
      let iv = bytes_n c bi.b_bs in
      name ("Block.cbc_encrypt over " ^ bi.b_name);
      let x = expand (draw c 0xFFFFFF) bi.b_bs in
      let y = Bytes.of_string x in
      (new C.Block.cbc_encrypt ~iv (bi.b_mk_enc ()))#transform y 0 y 0;
      place a p x;
      (new C.Block.cbc_encrypt ~iv (bi.b_mk_enc ()))#transform a p b q;
      expect_at !what a p x;
      expect_at !what b q (Bytes.to_string y)
    | `Xor ->
      name "xor_bytes";
      let y = expand (draw c 0xFFFFFF) n in
      place a p data; place b q y;
      C.xor_bytes a p b q n;
      expect_at !what a p data;
      expect_at !what b q (Refs.xor_str data y)
    | `XorStr ->
      name "xor_string";
      let y = expand (draw c 0xFFFFFF) n in
      place a p data; place b q y;
      C.xor_string (Bytes.unsafe_to_string a) p b q n;
      expect_at !what a p data;
      expect_at !what b q (Refs.xor_str data y)
    | `Prng ->
      let aes = bool c in
      let seed = bytes_n c 32 in
      name (if aes then "pseudo_rng_aes_ctr" else "pseudo_rng");
      let mk () = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
      let exp = C.Random.string (mk ()) n in
      (mk ())#random_bytes b q n;
      expect_at !what b q exp
    | (`SysRng | `Device | `Hw) as k ->
      name (match k with `SysRng -> "system_rng" | `Device -> "device_rng" | `Hw -> "hardware_rng");
      (match (match k with `SysRng -> C.Random.system_rng () | `Device -> C.Random.device_rng "/dev/urandom" | `Hw -> C.Random.hardware_rng ()) with
       | exception C.Error C.No_entropy_source -> ()
       | rng ->
         rng#random_bytes b q n;
         let got = Bytes.sub_string b q n in
         expect_at !what b q got;
         for i = 0 to n / 16 - 1 do
           if String.sub got (16 * i) 16 = String.make 16 fillc then failf "%s: 16 bytes of the request left unset" !what
         done;
         if k <> `Hw then rng#wipe)
  in
  (match body () with
   | () -> clean a p n; clean b q n
   | exception e -> clean a p n; clean b q n; raise e);
  if n > 0 then nontrivial c

(* ============================ C23 ============================ *)
let sched = ref 0
let srnd n = sched := mix (!sched + 0x1234567); (!sched land max_int) mod n
let fragment = ref [||]
let gc_step () =
  match srnd 16 with
  | 0 -> Gc.compact ()
  | 1 -> Gc.full_major ()
  | 2 -> Hs.pressure_major ()
  | 3 -> ignore (Gc.major_slice 2000)
  | 4 | 5 | 6 -> ()
  | _ ->
    let k = match srnd 4 with 0 -> srnd 12 | 1 -> srnd 60 | 2 -> srnd 400 | _ -> srnd 2500 in
    ignore (Hs.leave_minor_words k)

let stressed f =
  let old = Gc.get () in
  Gc.set { old with Gc.minor_heap_size = 4096; Gc.space_overhead = 40 };
  Hs.poison true;
  Hs.released (if srnd 8 = 0 then 2 else 1);
  step_hook := gc_step;
  let reset () = step_hook := (fun () -> ()); Hs.poison false; Hs.released 0; Gc.set old in
  match f () with v -> reset (); v | exception e -> reset (); raise e

let c23_prog c =
  let seed = draw c 0x3FFFFFF in
  let (_, p) = Progs.gen c in
  let run () = let b = Buffer.create 500 in p c b; Buffer.contents b in
  let t0 = rewind c run in
  let n0 = Hs.poison_count () in
  for i = 1 to 3 do
    (* holes in the major heap, so that compaction moves things *)
    fragment := Array.init 200 (fun k -> Bytes.create (16 + (k * 37) mod 900));
    Array.iteri (fun k _ -> if k land 1 = 0 then !fragment.(k) <- Bytes.empty) !fragment;
    sched := seed * 31 + i;
    let t1 = if i = 3 then stressed run else rewind c (fun () -> stressed run) in
    if not (String.equal t0 t1) then begin
      let l0 = String.split_on_char '\n' t0 and l1 = String.split_on_char '\n' t1 in
      let rec d a b = match a, b with x :: a', y :: b' -> if x = y then d a' b' else (x, y) | x :: _, [] -> (x, "") | [], y :: _ -> ("", y) | [], [] -> ("", "") in
      let (x, y) = d l0 l1 in
      let cut s = if String.length s > 200 then String.sub s 0 200 else s in
      failf "result depends on garbage collection: %s / %s" (cut x) (cut y)
    end
  done;
  if Hs.poison_count () > n0 then nontrivial c

(* large pieces, with other threads collecting whenever the operation lets them
   run (on operations that never release the runtime system, nothing happens) *)
let c23_released c =
  let n = match draw c 3 with 0 -> range c 1000 5000 | 1 -> range c 4000 20000 | 2 -> range c 16000 70000 | _ -> range c 65000 300000 in
  let data () = expand (c.idx + n) n in
  let name, f = match strat c 5 with
    | 0 | 1 -> let h = gen_hash_strat c in
      h.h_desc, (fun () -> let o = h.h_make () in let s = data () in o#add_string s; o#add_substring (Bytes.of_string s) 1 (n - 2); o#result)
    | 2 -> let ti = t_std c in
      let m = match ti.t_kind with
        | "base64dec" | "hexdec" -> ti.t_gen c 1500
        | _ -> expand (c.idx + n) (n / 240 * 240) in
      ti.t_desc, (fun () -> let t = ti.t_make () in t#put_string m; t#finish; t#get_string)
    | 3 -> let a = if bool c then a_gcm c else a_chapoly c in
      a.a_desc, (fun () -> let t = a.a_make true in t#put_string (data ()); let tag = t#finish_and_get_tag in t#get_string ^ tag)
    | _ -> (match draw c 3 with
      | 0 -> "pseudo_rng", (fun () -> C.Random.string (C.Random.pseudo_rng (data ())) n)
      | 1 -> "pseudo_rng_aes_ctr", (fun () -> C.Random.string (C.Random.pseudo_rng_aes_ctr (data ())) n)
      | 2 -> "xor_string", (fun () -> let d = Bytes.make n 'x' in C.xor_string (data ()) 0 d 0 n; Bytes.to_string d)
      | _ -> "zlib", (fun () -> if !variant = "nozlib" then "" else
          let z = C.transform_string (C.Zlib.compress ()) (data ()) in C.transform_string (C.Zlib.uncompress ()) z ^ z)) in
  note c "operation" (sp "%s, %d bytes" name n);
  let t0 = match f () with s -> s | exception e -> exn_name e in
  fragment := Array.init 200 (fun k -> Bytes.create (2100 + (k * 37) mod 900));
  Array.iteri (fun k _ -> if k land 1 = 0 then !fragment.(k) <- Bytes.empty) !fragment;
  Hs.released (if chance c 1 2 then 2 else 1);
  let t1 = match f () with s -> s | exception (Fail _ as e) -> Hs.released 0; raise e | exception e -> exn_name e in
  Hs.released 0;
  if not (String.equal t0 t1) then failf "%s: the result depends on collections made by other threads during the operation: %s / %s" name (show t0) (show t1);
  nontrivial c

(* a collection at each allocation point of each constructor and accessor *)
let targets : (string * int list * (string -> string)) array =
  let h (mk : string -> C.hash) k = let o = mk k in o#add_string "some data"; o#result in
  let t (mk : string -> C.transform) k = let o = mk k in o#put_string (String.make 48 'x'); o#get_string in
  let a (mk : string -> C.authenticated_transform) k = let o = mk k in o#put_string "some data to encrypt"; let tag = o#finish_and_get_tag in o#get_string ^ tag in
  let bl (mk : string -> C.Block.block_cipher) k = let o = mk k in let b = Bytes.make o#blocksize 'z' in o#transform b 0 b 0; Bytes.to_string b in
  let e = C.Cipher.Encrypt and d = C.Cipher.Decrypt in
  [| ("siphash", [ 16 ], h C.MAC.siphash); ("siphash128", [ 16 ], h C.MAC.siphash128);
     ("gcm enc", [ 16; 24; 32 ], a (fun k -> C.AEAD.aes_gcm ~iv:"0123456789ab" k C.AEAD.Encrypt));
     ("gcm dec", [ 16; 24; 32 ], a (fun k -> C.AEAD.aes_gcm ~iv:(String.sub k 0 7) ~header:k k C.AEAD.Decrypt));
     ("gcm iv", [ 1; 12; 17; 40 ], a (fun k -> C.AEAD.aes_gcm ~iv:k ~header:k "0123456789abcdef" C.AEAD.Encrypt));
     ("chapoly enc", [ 16; 32 ], a (fun k -> C.AEAD.chacha20_poly1305 ~iv:(String.sub k 0 8) ~header:k k C.AEAD.Encrypt));
     ("chapoly dec", [ 16; 32 ], a (fun k -> C.AEAD.chacha20_poly1305 ~iv:(String.sub k 0 12) ~header:k k C.AEAD.Decrypt));
     ("blake2b", [ 0; 1; 32; 64 ], h (C.MAC.blake2b 512)); ("blake2s", [ 0; 1; 32 ], h (C.MAC.blake2s 256)); ("blake3", [ 32 ], h (C.MAC.blake3 2000));
     ("blake3 long", [ 32 ], h (C.MAC.blake3 80000));
     ("hmac sha1", [ 5; 70 ], h C.MAC.hmac_sha1); ("hmac sha256", [ 5; 70 ], h C.MAC.hmac_sha256); ("hmac sha384", [ 5; 150 ], h C.MAC.hmac_sha384);
     ("hmac sha512", [ 5; 150 ], h C.MAC.hmac_sha512); ("hmac ripemd160", [ 5; 70 ], h C.MAC.hmac_ripemd160); ("hmac md5", [ 5; 70 ], h C.MAC.hmac_md5);
     ("cmac", [ 16; 24; 32 ], h (fun k -> C.MAC.aes_cmac k)); ("des mac", [ 8 ], h (fun k -> C.MAC.des ~pad:C.Padding.length k));
     ("des_final_triple_des", [ 16; 24 ], h (fun k -> C.MAC.des_final_triple_des ~iv:(String.sub k 0 8) ~pad:C.Padding._8000 k));
     ("aes enc", [ 16; 24; 32 ], bl (new C.Block.aes_encrypt)); ("aes dec", [ 16; 24; 32 ], bl (new C.Block.aes_decrypt));
     ("des enc", [ 8 ], bl (new C.Block.des_encrypt)); ("des dec", [ 8 ], bl (new C.Block.des_decrypt));
     ("3des enc", [ 16; 24 ], bl (new C.Block.triple_des_encrypt)); ("3des dec", [ 16; 24 ], bl (new C.Block.triple_des_decrypt));
     ("blowfish", [ 4; 11; 56 ], bl (new C.Block.blowfish_encrypt)); ("blowfish dec", [ 4; 11; 56 ], bl (new C.Block.blowfish_decrypt));
     ("arcfour", [ 1; 16; 256 ], t (fun k -> C.Cipher.arcfour k e)); ("chacha20", [ 16; 32 ], t (fun k -> C.Cipher.chacha20 ~iv:(String.sub k 0 8) ~ctr:0x1_0000_0000L k e));
     ("aes cbc", [ 16 ], t (fun k -> C.Cipher.aes ~mode:C.Cipher.CBC ~iv:k k e)); ("aes ctr", [ 16 ], t (fun k -> C.Cipher.aes ~mode:C.Cipher.CTR ~iv:k k d));
     ("sha1", [ 0; 100 ], h (fun k -> let o = C.Hash.sha1 () in o#add_string k; o)); ("sha224", [ 0; 100 ], h (fun k -> let o = C.Hash.sha224 () in o#add_string k; o));
     ("sha256", [ 0; 100 ], h (fun k -> let o = C.Hash.sha256 () in o#add_string k; o)); ("sha384", [ 0; 200 ], h (fun k -> let o = C.Hash.sha384 () in o#add_string k; o));
     ("sha512", [ 0; 200 ], h (fun k -> let o = C.Hash.sha512 () in o#add_string k; o)); ("sha3", [ 0; 200 ], h (fun k -> let o = C.Hash.sha3 256 in o#add_string k; o));
     ("keccak", [ 0; 200 ], h (fun k -> let o = C.Hash.keccak 512 in o#add_string k; o)); ("ripemd160", [ 0; 100 ], h (fun k -> let o = C.Hash.ripemd160 () in o#add_string k; o));
     ("md5", [ 0; 100 ], h (fun k -> let o = C.Hash.md5 () in o#add_string k; o));
     ("pseudo_rng", [ 16; 20; 32; 50 ], (fun k -> C.Random.string (C.Random.pseudo_rng k) 70)); ("aes_ctr rng", [ 16; 50 ], (fun k -> C.Random.string (C.Random.pseudo_rng_aes_ctr k) 70));
     ("mod_power", [ 8; 30 ], (fun k -> C.mod_power (String.sub k 0 3) k (k ^ "\003"))); ("mod_mult", [ 8; 30 ], (fun k -> C.mod_mult k k (k ^ "\003")));
     ("base64", [ 0; 1; 50 ], (fun k -> C.transform_string (C.Base64.decode ()) (C.transform_string (C.Base64.encode_compact_pad ()) k)));
     ("hexa", [ 0; 1; 50 ], (fun k -> C.transform_string (C.Hexa.decode ()) (C.transform_string (C.Hexa.encode ()) k)));
     ("equal", [ 3; 60 ], (fun k -> string_of_bool (C.string_equal k (String.sub k 0 (String.length k)))));
     ("derive_key", [ 3; 60 ], (fun k -> C.DH.derive_key ~diversification:k k 77));
  |]
let zlib_targets : (string * int list * (string -> string)) array = [|
     ("zlib", [ 0; 60; 700 ], (fun k -> let z = C.transform_string (C.Zlib.compress ~write_zlib_header:true ()) k in C.transform_string (C.Zlib.uncompress ~expect_zlib_header:true ()) z ^ z));
     ("zlib error", [ 3; 60 ], (fun k -> match C.transform_string (C.Zlib.uncompress ~expect_zlib_header:true ()) ("\000" ^ k) with s -> s | exception C.Error (C.Compression_error (a, b)) -> a ^ ":" ^ b)) |]

let c23_points c =
  let all = Array.append targets zlib_targets in
  let (name, lens, f) = all.(strat c (Array.length all)) in
  let n = pickl c lens in
  let k0 = bytes_n c n in
  note c "operation" (sp "%s, %d bytes" name n); label c name;
  let fresh () = Bytes.to_string (Bytes.of_string k0) in
  let w0 = Gc.minor_words () in
  let expected = f (fresh ()) in
  let w = int_of_float (Gc.minor_words () -. w0) in
  let old = Gc.get () in
  Gc.set { old with Gc.minor_heap_size = 32768 };
  Hs.poison true;
  let n0 = Hs.poison_count () in
  let pressure = chance c 1 4 in
  let bad = ref None in
  let one k =
    if pressure then Hs.pressure_major ();
    ignore (Hs.leave_minor_words k);
    let key = fresh () in                       (* young when the call is made *)
    let r = match f key with r -> r | exception e -> "raises " ^ exn_name e in
    if !bad = None && r <> expected then bad := Some (k, r) in
  (* every allocation point for short operations, a sample for long ones *)
  let w = min (w + 16) 20000 in
  let cap = if c.tier = Quick then 120 else 1500 in
  if w <= cap then for k = 0 to w do one k done
  else begin
    for k = 0 to cap / 3 do one k done;
    let s = ref (draw c 0xFFFFFF) in
    for _ = 1 to 2 * cap / 3 do s := mix (!s + 1); one ((!s land max_int) mod w) done
  end;
  Hs.poison false;
  Gc.set old;
  (match !bad with
   | Some (k, r) -> failf "%s: with %d words left in the minor heap: expected %s, got %s" name k (show expected) (show r)
   | None -> ());
  if Hs.poison_count () > n0 then nontrivial c

(* ============================ C25 ============================ *)
let scratch = lazy (
  let d = Filename.concat (Sys.getcwd ()) (sp "scratch-%d" (Unix.getpid ())) in
  (try Unix.mkdir d 0o700 with Unix.Unix_error (Unix.EEXIST, _, _) -> ());
  at_exit (fun () -> try Array.iter (fun f -> Sys.remove (Filename.concat d f)) (Sys.readdir d); Unix.rmdir d with _ -> ());
  d)
let tmpfile name = Filename.concat (Lazy.force scratch) (sp "%s-%d" name (Unix.getpid ()))
let write_file f s = let oc = open_out_bin f in output_string oc s; close_out oc
let read_file f = let ic = open_in_bin f in let n = in_channel_length ic in let s = really_input_string ic n in close_in ic; s

(* C20, one-shot functions: the object given must be wiped on return *)
let c20_oneshot c =
  let run s () =
    salt := s; salt_count := 0;
    Hs.track_reset ();
    let n = length ~dense:120 ~block:16 ~max:1200 c in
    (* channels are opened before and closed after the observed interval *)
    let channels data =
      let fin = tmpfile "in" in
      write_file fin data;
      let ic = open_in_bin fin in
      Sys.remove fin;
      ic, open_out_bin "/dev/null" in
    let len data = if bool c then Some (String.length data) else None in
    let desc, obj, act, data, caller = match strat c 7 with
      | 0 | 1 as k ->
        let ti = t_std c in
        let data = ti.t_gen c n in
        let l = len data in
        let ic, oc = channels data in
        Hs.track true;
        let t = ti.t_make () in
        (if k = 0 then "transform_string " else "transform_channel ") ^ ti.t_desc, Obj.repr t,
        (fun () ->
          if k = 0 then ignore (C.transform_string t data)
          else C.transform_channel t ?len:l ic oc),
        data, ti.t_caller
      | 2 | 3 as k ->
        let (nm, g) = all_hash_kinds.(strat c (Array.length all_hash_kinds)) in
        let h = if nm = "block_mac_custom" || nm = "block_mac_final_triple_custom" then snd all_hash_kinds.(0) c else g c in
        let data = bytes_n c (n / h.h_unit * h.h_unit) in
        let l = len data in
        let ic, _ = channels data in
        Hs.track true;
        let o = h.h_make () in
        (if k = 2 then "hash_string " else "hash_channel ") ^ h.h_desc, Obj.repr o,
        (fun () -> if k = 2 then ignore (C.hash_string o data) else ignore (C.hash_channel o ?len:l ic)),
        data, h.h_caller
      | k ->
        let a = if bool c then a_gcm c else a_chapoly c in
        let data = bytes_n c n in
        if k <= 5 then begin
          Hs.track true;
          let t = a.a_make true in
          (if k = 4 then "auth_transform_string " else "auth_transform_string_detached ") ^ a.a_desc, Obj.repr t,
          (fun () -> if k = 4 then ignore (C.auth_transform_string t data) else ignore (C.auth_transform_string_detached t data)),
          data, a.a_caller
        end else begin
          let good = bool c in
          let ct = C.auth_transform_string (a.a_make true) data in
          let ct = if good then ct else begin
            let b = Bytes.of_string ct in
            let i = range c 0 (Bytes.length b - 1) in
            Bytes.set b i (Char.chr (Char.code (Bytes.get b i) lxor (1 lsl draw c 7)));
            Bytes.to_string b end in
          Hs.track true;
          let t = a.a_make false in
          sp "auth_check_transform_string (%s) %s" (if good then "accepted" else "rejected") a.a_desc, Obj.repr t,
          (fun () -> match C.auth_check_transform_string t ct with
             | Some _ when not good -> failf "modified ciphertext accepted"
             | None when good -> failf "ciphertext rejected"
             | _ -> ()),
          data, a.a_caller
        end in
    let excl = Array.of_list (List.map Obj.repr caller) in
    let before = Hs.dump obj excl in
    Hs.log_frees true;
    act ();
    Hs.log_frees false;
    let after = Hs.dump obj excl in
    Hs.track false;
    (desc, String.length data, before, after) in
  match in_child (run 0), in_child (run 77) with
  | Ok (d, n, _, a1), Ok (_, _, _, a2) ->
    note c "call" d; notei c "data length" n; label c (List.hd (String.split_on_char ' ' d));
    if a1 <> a2 then failf "on return from the one-shot function, the memory of the object still depends on the secrets (%s): %s" d (first_diff a1 a2);
    if n > 0 then nontrivial c
  | Error m, _ | _, Error m -> failf "%s" m

let c25 c =
  let n = match strat c 4 with 0 -> length ~dense:600 ~block:256 ~max:1500 c | 1 -> 256 * range c 0 5 + range c 0 2 - 1 | 2 -> range c 0 5000 | _ -> range c 60_000 70_000 in
  let n = max 0 n in
  let data = bytes_n c n in
  let fin = tmpfile "in" and fout = tmpfile "out" in
  write_file fin data;
  let pre = if chance c 1 4 then min n (range c 0 300) else 0 in            (* bytes already read from the channel *)
  let avail = n - pre in
  let len = match weighted c [ (3, `None); (4, `In); (1, `All); (2, `Over); (1, `Zero) ] with
    | `None -> None | `In -> Some (range c 0 avail) | `All -> Some avail | `Over -> Some (avail + range c 1 600) | `Zero -> Some 0 in
  (* short reads *)
  let script = if bool c then Array.init (range c 1 60) (fun _ -> match draw c 3 with 0 -> 1 | 1 -> range c 1 20 | 2 -> range c 200 300 | _ -> range c 1 3000) else [||] in
  let ic = open_in_bin fin in
  let cleanup () = Hs.read_script false [||]; close_in_noerr ic; (try Sys.remove fin with _ -> ()); (try Sys.remove fout with _ -> ()) in
  (try
    Hs.read_script (script <> [||]) script;
    ignore (really_input_string ic pre);
    let used = match len with None -> avail | Some l -> min l avail in
    let part = String.sub data pre used in
    let short = match len with Some l -> l > avail | None -> false in
    let desc = sp "%d bytes, %d already read, len=%s, %d scripted reads" n pre (match len with None -> "-" | Some l -> string_of_int l) (Array.length script) in
    note c "channel" desc;
    let stopped = ref false in
    if bool c then begin
      let h = gen_hash c in
      let h = if h.h_unit > 1 then snd all_hash_kinds.(0) c else h in
      note c "hash" h.h_desc;
      (match C.hash_channel (h.h_make ()) ?len ic with
       | r -> if short then failf "hash_channel returned although only %d bytes were available" avail; check_eq "hash_channel" (C.hash_string (h.h_make ()) part) r; check_eq "digest" (h.h_ref part) r
       | exception End_of_file -> if not short then failf "hash_channel raised End_of_file")
    end else begin
      let ti = match draw c 8 with 0 -> t_arcfour c | 1 -> t_chacha c | 2 -> t_b64enc c | 3 -> t_b64multi c | 4 -> t_hexenc c | _ -> t_cipher ~enc:true c in
      note c "transform" ti.t_desc;
      let oc = open_out_bin fout in
      let expected = match C.transform_string (ti.t_make ()) part with s -> Ok s | exception e -> Error e in
      (match C.transform_channel (ti.t_make ()) ?len ic oc with
       | () ->
         close_out oc;
         if short then failf "transform_channel returned although only %d bytes were available" avail;
         (match expected with
          | Ok s -> check_eq "transform_channel" s (read_file fout);
            if ti.t_exact && (ti.t_inb = 1) && String.length part < 3000 then (match ti.t_ref part with r -> check_eq "transformed data" r s)
          | Error e -> failf "transform_channel succeeds where transform_string raises %s" (exn_name e))
       | exception End_of_file -> close_out_noerr oc; if not short then failf "transform_channel raised End_of_file"
       | exception (C.Error _ as e) -> close_out_noerr oc;
         (match expected with
          | Error e' when e = e' -> stopped := true
          | Error _ when short -> stopped := true
          | _ -> failf "transform_channel raised %s" (exn_name e)))
    end;
    (* the rest of the channel is unread *)
    Hs.read_script false [||];
    let rest = String.sub data (pre + used) (avail - used) in
    let got = let b = Buffer.create 100 in (try while true do Buffer.add_channel b ic 1 done with End_of_file -> ()); Buffer.contents b in
    if not !stopped then check_eq "data left in the channel" rest got
  with e -> cleanup (); raise e);
  cleanup ();
  if n > 0 then nontrivial c

(* the same through a pipe with a concurrent writer *)
let c25_pipe c =
  let n = match draw c 2 with 0 -> range c 0 600 | 1 -> range c 0 5000 | _ -> range c 60_000 140_000 in
  let seed = draw c 0xFFFFFF in
  let data = expand seed n in
  let len = if bool c then None else Some (range c 0 n) in
  let h = gen_hash c in
  let h = if h.h_unit > 1 then snd all_hash_kinds.(1) c else h in
  note c "pipe" (sp "%d bytes len=%s %s" n (match len with None -> "-" | Some l -> string_of_int l) h.h_desc);
  let pieces = chunks ~block:256 c n in
  let rd, wr = Unix.pipe () in
  flush_all ();
  match Unix.fork () with
  | 0 ->
    Unix.close rd;
    (try
      Sys.set_signal Sys.sigpipe Sys.Signal_ignore;
      let pos = ref 0 in
      List.iter (fun k ->
        let rec w o l = if l > 0 then (let r = Unix.write_substring wr data o l in w (o + r) (l - r)) in
        w !pos k; pos := !pos + k;
        if k land 7 = 1 then Unix.sleepf 0.0001) pieces
    with _ -> ());
    Unix._exit 0
  | pid ->
    Unix.close wr;
    let ic = Unix.in_channel_of_descr rd in
    let r = (try Ok (C.hash_channel (h.h_make ()) ?len ic) with e -> Error e) in
    let used = match len with None -> n | Some l -> l in
    let rest = (try let b = Buffer.create 100 in (try while true do Buffer.add_channel b ic 1 done with End_of_file -> ()); Buffer.contents b with _ -> "?") in
    close_in ic;
    ignore (Unix.waitpid [] pid);
    (match r with
     | Ok d -> check_eq "hash_channel" (C.hash_string (h.h_make ()) (String.sub data 0 used)) d
     | Error e -> failf "hash_channel raised %s" (exn_name e));
    check_eq "data left in the channel" (String.sub data used (n - used)) rest;
    if n > 0 then nontrivial c

(* ============================ C26 ============================ *)
type stage = { g_desc : string; g_mk : unit -> C.transform; g_in : int; g_out : int; g_norm : string -> string }
let stage_of ti = { g_desc = ti.t_desc; g_mk = ti.t_make; g_in = ti.t_inb; g_out = ti.t_outb; g_norm = (fun s -> s) }
let zlib_comp level zl = { g_desc = sp "Zlib.compress %d %b" level zl; g_mk = (fun () -> C.Zlib.compress ~level ~write_zlib_header:zl ()); g_in = 1; g_out = 1; g_norm = (fun s -> s) }

let c26_compose c =
  let n = length ~dense:200 ~block:16 ~max:1500 c in
  (* first stage, with input *)
  let zl = bool c in
  let level = range c 0 9 in
  let (s1, data) = match strat c 10 with
    | 0 -> (zlib_comp level zl, bytes_n c n)
    | 1 -> ({ g_desc = "Zlib.uncompress"; g_mk = (fun () -> C.Zlib.uncompress ~expect_zlib_header:zl ()); g_in = 1; g_out = 1; g_norm = (fun s -> s) },
            C.transform_string (C.Zlib.compress ~level ~write_zlib_header:zl ()) (P2.compressible c n))
    | 2 -> let ti = t_b64multi c in (stage_of ti, ti.t_gen c n)
    | 3 -> let ti = t_b64dec c in (stage_of ti, ti.t_gen c n)
    | 4 -> let ti = t_hexdec c in (stage_of ti, ti.t_gen c n)
    | 5 -> let ti = t_hexenc c in (stage_of ti, ti.t_gen c n)
    | 6 -> let ti = t_chacha c in (stage_of ti, ti.t_gen c n)
    | _ -> let ti = t_cipher c in (stage_of ti, ti.t_gen c n) in
  let mid = C.transform_string (s1.g_mk ()) data in
  let s2 = match draw c 7 with
    | 0 -> stage_of (t_hexenc c) | 1 -> stage_of (t_b64enc c) | 2 -> stage_of (t_chacha c) | 3 -> stage_of (t_arcfour c)
    | 4 -> zlib_comp (range c 0 9) (bool c) | 5 -> stage_of (t_b64multi c)
    | _ -> let ci = cipher_inst ~pad:(if bool c then PLen else P8000) c in
      if max_units ci < 100000 then stage_of (t_arcfour c) else
      { g_desc = cinst_str ci true; g_mk = (fun () -> ci.c_make true); g_in = 1; g_out = ci.c_unit; g_norm = (fun s -> s) } in
  let third = if chance c 1 3 then Some (stage_of (match draw c 2 with 0 -> t_hexenc c | 1 -> t_chacha c | _ -> t_arcfour c)) else None in
  let (s2, s2_desc, ref2, mk) = match third with
    | None -> (s2, s2.g_desc, (fun () -> C.transform_string (s2.g_mk ()) mid), (fun () -> C.compose (s1.g_mk ()) (s2.g_mk ())))
    | Some s3 ->
      let left = bool c in
      (s3, s2.g_desc ^ " ; " ^ s3.g_desc, (fun () -> C.transform_string (s3.g_mk ()) (C.transform_string (s2.g_mk ()) mid)),
       (fun () -> if left then C.compose (C.compose (s1.g_mk ()) (s2.g_mk ())) (s3.g_mk ()) else C.compose (s1.g_mk ()) (C.compose (s2.g_mk ()) (s3.g_mk ())))) in
  let expected = ref2 () in
  let flushes_ok = true in
  note c "compose" (s1.g_desc ^ " ; " ^ s2_desc); noteb c "input" data;
  let t = mk () in
  check_int "input_block_size" s1.g_in t#input_block_size;
  check_int "output_block_size" s2.g_out t#output_block_size;
  ignore flushes_ok;
  let outb = Buffer.create 100 in
  let f = feeder_t t in
  let pos = ref 0 and puts = ref 0 in
  List.iter (fun k ->
    incr puts;
    feed_piece c f (String.sub data !pos k); pos := !pos + k;
    if chance c 1 3 then begin
      let a = t#available_output in
      let s = match draw c 2 with 0 -> t#get_string | 1 -> let (b, o, l) = t#get_substring in Bytes.sub_string b o l
        | _ -> String.init a (fun _ -> t#get_char) in
      check_int "available_output" a (String.length s);
      Buffer.add_string outb s
    end) (chunks c (String.length data));
  t#finish;
  Buffer.add_string outb t#get_string;
  (match t#get_char with _ -> failf "get_char after everything was read" | exception End_of_file -> ());
  check_eq "compose" expected (Buffer.contents outb);
  if String.length data > 0 && !puts >= 1 then nontrivial c

(* flush reaches both stages *)
let c26_flush c =
  let n () = length ~dense:100 ~block:16 ~max:600 c in
  match strat c 4 with
  | 0 | 1 ->
    (* a compressor first: after flush, all data can be recovered from the output so far *)
    let st = match draw c 2 with 0 -> t_hexenc c | 1 -> t_chacha c | _ -> t_arcfour c in
    let inv = match st.t_inv with Some i -> i | None -> failf "harness: no inverse" in
    let zl = bool c in
    let t = C.compose (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zl ()) (st.t_make ()) in
    let total = Buffer.create 100 and outb = Buffer.create 100 in
    note c "compose" ("Zlib.compress ; " ^ st.t_desc);
    for _ = 1 to range c 1 4 do
      let m = P2.compressible c (n ()) in
      t#put_string m; Buffer.add_string total m;
      t#flush;
      Buffer.add_string outb t#get_string;
      let z = C.transform_string (inv ()) (Buffer.contents outb) in
      check_eq "data recoverable after flush" (Buffer.contents total) (Defl.inflate_prefix ~zlib:zl z)
    done;
    nontrivial c
  | 2 ->
    (* a compressor second *)
    let st = match draw c 2 with 0 -> t_hexenc c | 1 -> t_chacha c | _ -> t_arcfour c in
    let zl = bool c in
    let t = C.compose (st.t_make ()) (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zl ()) in
    let total = Buffer.create 100 and outb = Buffer.create 100 in
    note c "compose" (st.t_desc ^ " ; Zlib.compress");
    for _ = 1 to range c 1 4 do
      let m = bytes_n c (if st.t_kind = "chacha20" then min 60 (n ()) else n ()) in
      t#put_string m; Buffer.add_string total m;
      t#flush;
      Buffer.add_string outb t#get_string;
      check_eq "data recoverable after flush" (st.t_ref (Buffer.contents total)) (Defl.inflate_prefix ~zlib:zl (Buffer.contents outb))
    done;
    nontrivial c
  | _ ->
    (* block ciphers: whole blocks are all there after flush, a partial block is refused *)
    let ci = cipher_inst ~pad:NoPad c in
    let enc = bool c in
    let u = ci.c_unit in
    let t = if bool c then C.compose (ci.c_make enc) (C.Hexa.encode ()) else C.compose (C.compose (ci.c_make enc) (C.Hexa.encode ())) (C.compose (C.Hexa.decode ()) (C.Hexa.encode ())) in
    note c "compose" (cinst_str ci enc ^ " ; Hexa.encode");
    let lim = limit_len ci 400 in
    let outb = Buffer.create 100 and total = Buffer.create 100 in
    for _ = 1 to range c 1 4 do
      let k = range c 0 (max 0 (min 120 (lim - Buffer.length total))) in
      let s = bytes_n c k in
      t#put_string s; Buffer.add_string total s;
      let whole = Buffer.length total mod u = 0 in
      (match t#flush with
       | () -> if not whole then failf "flush accepted a partial block"
       | exception C.Error C.Wrong_data_length -> if whole then failf "flush refused whole blocks");
      Buffer.add_string outb t#get_string;
      if whole then check_eq "output after flush" (Refs.hex (ci.c_raw enc (Buffer.contents total))) (Buffer.contents outb)
    done;
    nontrivial c

let c26_hash c =
  let thn = strat c 2 = 0 in
  let n = length ~dense:200 ~block:16 ~max:1200 c in
  let (mk, desc, data, exp) = match draw c 6 with
    | 0 -> let l = range c 0 9 in let m = P2.compressible c n in
      ((fun () -> C.Zlib.compress ~level:l ()), "Zlib.compress", m, C.transform_string (C.Zlib.compress ~level:l ()) m)
    | 1 -> let ti = t_b64multi c in let m = ti.t_gen c n in (ti.t_make, ti.t_desc, m, C.transform_string (ti.t_make ()) m)
    | _ -> let ti = gen_transform c in let m = ti.t_gen c n in (ti.t_make, ti.t_desc, m, ti.t_ref m) in
  let rec gh k = let h = gen_hash c in if h.h_unit > 1 && k > 0 then gh (k - 1) else if h.h_unit > 1 then snd hash_kinds.(2) c else h in
  let h = gh 5 in
  note c "object" (sp "%s %s %s" (if thn then "transform_then_hash" else "transform_and_hash") desc h.h_desc); noteb c "input" data;
  let t = (if thn then C.transform_then_hash else C.transform_and_hash) (mk ()) (h.h_make ()) in
  let t0 = mk () in
  check_int "input_block_size" t0#input_block_size t#input_block_size;
  check_int "output_block_size" t0#output_block_size t#output_block_size;
  check_int "tag_size" h.h_size t#tag_size;
  let outb = Buffer.create 100 in
  let f = feeder_a t in
  let pos = ref 0 in
  let read () =
    let a = t#available_output in
    let s = match draw c 2 with 0 -> t#get_string | 1 -> let (b, o, l) = t#get_substring in Bytes.sub_string b o l
      | _ -> String.init a (fun i -> if i land 1 = 0 then t#get_char else Char.chr t#get_byte) in
    check_int "available_output" a (String.length s);
    Buffer.add_string outb s in
  List.iter (fun k -> feed_piece c f (String.sub data !pos k); pos := !pos + k; if chance c 1 3 then read ()) (chunks c (String.length data));
  let tag = t#finish_and_get_tag in
  read ();
  check_eq "output" exp (Buffer.contents outb);
  check_eq "tag" (h.h_ref (if thn then exp else data)) tag;
  check_int "tag_size" (String.length tag) t#tag_size;
  if n > 0 then nontrivial c

(* ============================ C27 ============================ *)
let c27_equal c =
  let n = length ~dense:200 ~block:64 ~max:2000 c in
  let a = bytes_n c n in
  let b = match weighted c [ (3, `Same); (4, `One); (2, `Len); (2, `Other); (1, `Perm) ] with
    | `Same -> Bytes.to_string (Bytes.of_string a)
    | `One when n > 0 -> let i = match draw c 3 with 0 -> 0 | 1 -> n - 1 | _ -> range c 0 (n - 1) in
      let x = match draw c 1 with 0 -> 1 lsl draw c 7 | _ -> range c 1 255 in
      String.mapi (fun j ch -> if j = i then Char.chr (Char.code ch lxor x) else ch) a
    | `One | `Same -> a
    | `Len -> if bool c && n > 0 then String.sub a 0 (n - range c 1 (min n 9)) else a ^ bytes_n c (range c 1 9)
    | `Other -> bytes_n c (if bool c then n else range c 0 300)
    | `Perm when n > 1 -> (* two differences that cancel in sums and xors *)
      let i = range c 0 (n - 1) in let j = range c 0 (n - 1) in
      let x = range c 1 255 in
      String.mapi (fun k ch -> if k = i || k = j then Char.chr (Char.code ch lxor x) else ch) a
    | `Perm -> a in
  noteb c "a" a; noteb c "b" b;
  let expected = (compare a b = 0) in
  label c (if expected then "equal" else "different");
  let chk what r = if r <> expected then failf "%s returns %b" what r in
  chk "string_equal a b" (C.string_equal a b); chk "string_equal b a" (C.string_equal b a);
  chk "bytes_equal a b" (C.bytes_equal (Bytes.of_string a) (Bytes.of_string b)); chk "bytes_equal b a" (C.bytes_equal (Bytes.of_string b) (Bytes.of_string a));
  if not (C.string_equal a a) then failf "string_equal a a returns false";
  if n > 0 then nontrivial c

let c27_xor c =
  let n = match strat c 3 with 0 -> range c 0 70 | 1 -> length ~dense:140 ~block:16 ~max:1200 c | _ -> range c 0 20 in
  let a1 = range c 0 20 and z1 = range c 0 20 and a2 = range c 0 20 and z2 = range c 0 20 in
  let src = bytes_n c (a1 + n + z1) and dst = bytes_n c (a2 + n + z2) in
  let exp = Bytes.of_string dst in
  for i = 0 to n - 1 do Bytes.set exp (a2 + i) (Char.chr (Char.code dst.[a2 + i] lxor Char.code src.[a1 + i])) done;
  note c "xor" (sp "length %d, source offset %d of %d, destination offset %d of %d" n a1 (String.length src) a2 (String.length dst));
  let s = Bytes.of_string src and d = Bytes.of_string dst in
  C.xor_bytes s a1 d a2 n;
  check_eq "xor_bytes destination" (Bytes.to_string exp) (Bytes.to_string d);
  check_eq "xor_bytes source" src (Bytes.to_string s);
  let d = Bytes.of_string dst in
  let src' = Bytes.unsafe_to_string (Bytes.of_string src) in
  C.xor_string src' a1 d a2 n;
  check_eq "xor_string destination" (Bytes.to_string exp) (Bytes.to_string d);
  check_eq "xor_string source" src src';
  (* same buffer, same position: zeros *)
  let d = Bytes.of_string dst in
  C.xor_bytes d a2 d a2 n;
  check_eq "xor of a range with itself" (String.sub dst 0 a2 ^ String.make n '\000' ^ String.sub dst (a2 + n) z2) (Bytes.to_string d);
  (* disjoint ranges of one buffer *)
  let both = Bytes.of_string (src ^ dst) in
  C.xor_bytes both a1 both (String.length src + a2) n;
  check_eq "xor between two ranges of a buffer" (src ^ Bytes.to_string exp) (Bytes.to_string both);
  let both = Bytes.of_string (dst ^ src) in
  C.xor_bytes both (String.length dst + a1) both a2 n;
  check_eq "xor between two ranges of a buffer" (Bytes.to_string exp ^ src) (Bytes.to_string both);
  if n > 0 then nontrivial c

(* strings whose length needs more than 32 bits *)
let c27_huge c =
  let n = (1 lsl 32) + range c 1 3000 in
  let kind = strat c 3 in
  let bufs = ref [] in
  let alloc n = let b = Hs.sparse_alloc n in bufs := b :: !bufs; b in
  let free () = List.iter Hs.sparse_free !bufs; bufs := [] in
  let p = match draw c 2 with 0 -> n - 1 | 1 -> range c (1 lsl 31) (n - 1) | _ -> range c (1 lsl 32) (n - 1) in
  note c "operation" (sp "%s, length %d, position %d" (match kind with 0 -> "equal, one difference" | 1 -> "equal, lengths apart by 2^32" | _ -> "xor") n p);
  (match
    (match kind with
     | 0 ->
       let a = alloc n and b = alloc n in
       check "strings of more than 4 gigabytes with the same contents compare equal" (C.bytes_equal a b);
       Bytes.set b p '\001';
       heartbeat ();
       check "strings of more than 4 gigabytes with one difference compare different" (not (C.bytes_equal a b));
       check "strings of more than 4 gigabytes with one difference compare different" (not (C.string_equal (Bytes.unsafe_to_string b) (Bytes.unsafe_to_string a)))
     | 1 ->
       let a = alloc n in
       let b = Bytes.make (n - (1 lsl 32)) '\000' in
       check "strings whose lengths differ by 2^32 compare different" (not (C.bytes_equal a b) && not (C.bytes_equal b a))
     | _ ->
       let a = alloc n and b = alloc (n + 16) in
       Bytes.set a p 'x'; Bytes.set a 0 'y'; Bytes.set b (8 + p) 'z';
       C.xor_bytes a 0 b 8 n;
       let at i = Char.code (Bytes.get b i) in
       check_int "first byte" (Char.code 'y') (at 8);
       check_int (sp "byte %d" p) (Char.code 'x' lxor Char.code 'z') (at (8 + p));
       check_int "byte before" 0 (at 7); check_int "byte after" 0 (at (8 + n));
       C.xor_bytes b 8 b 8 n;
       check_int "first byte, xored with itself" 0 (at 8); check_int (sp "byte %d, xored with itself" p) 0 (at (8 + p)))
   with () -> free () | exception e -> free (); raise e);
  nontrivial c

(* ============================ C28 ============================ *)
let c28 c =
  let l1 = match strat c 4 with 0 -> strat c 70 | 1 -> range c 0 200 | 2 -> pick c [| 0; 1; 7; 8; 15; 16; 20; 31; 32; 33; 48; 63; 64; 65; 127; 128; 129; 255; 256; 257 |] | _ -> range c 0 40 in
  let l2 = if chance c 4 5 then l1 else range c 0 200 in
  let use_str = bool c in
  let a = Bytes.create l1 and b = Bytes.create l2 in
  let f : bytes -> bytes -> bool =
    if use_str then (fun x y -> C.string_equal (Bytes.unsafe_to_string x) (Bytes.unsafe_to_string y)) else C.bytes_equal in
  let base = bytes_n c (max l1 l2) in
  let m = min l1 l2 in
  let set s1 s2 = Bytes.blit_string s1 0 a 0 l1; Bytes.blit_string s2 0 b 0 l2 in
  let variants = ref [] in
  let add name s1 s2 = variants := (name, s1, s2) :: !variants in
  let p1 = String.sub base 0 l1 and p2 = String.sub base 0 l2 in
  add "equal" p1 p2;
  add "all different" p1 (String.map (fun ch -> Char.chr (255 - Char.code ch)) p2);
  add "zeros" (String.make l1 '\000') (String.make l2 '\000');
  if m > 0 then begin
    let flip i s = String.mapi (fun j ch -> if i = j then Char.chr (Char.code ch lxor (1 lsl (i land 7))) else ch) s in
    add "first" p1 (flip 0 p2); add "last" p1 (flip (m - 1) p2);
    for _ = 1 to 3 do let i = range c 0 (m - 1) in add (sp "byte %d" i) p1 (flip i p2) done;
    let i = range c 0 (m - 1) in add (sp "from byte %d" i) p1 (String.mapi (fun j ch -> if j >= i then Char.chr (Char.code ch lxor 0x80) else ch) p2)
  end;
  add "random" (bytes_n c l1) (bytes_n c l2);
  let variants = List.rev !variants in
  note c "lengths" (sp "%d %d %s" l1 l2 (if use_str then "string_equal" else "bytes_equal"));
  (* warm up: dynamic linking, page faults *)
  List.iter (fun (_, s1, s2) -> set s1 s2; ignore (f a b)) variants;
  set p1 p2; ignore (Hs.trace2 f a b 3_000_000);
  let first = ref None in
  List.iter (fun (name, s1, s2) ->
    set s1 s2;
    Gc.minor ();
    (* a pending collection may run inside the call: take the shortest trace *)
    let one () =
      let (r, n, h) = Hs.trace2 f a b 3_000_000 in
      if r <> String.equal s1 s2 then failf "comparison returns %b (%s)" r name;
      (n, h) in
    let rec best k m = if k = 0 || (match !first with Some f0 -> f0 = m | None -> false) then m else best (k - 1) (min m (one ())) in
    let (n, h) = best 4 (one ()) in
    match !first with
    | None -> first := Some (n, h)
    | Some (n0, h0) ->
      if n <> n0 || h <> h0 then failf "lengths %d and %d: %d instructions when equal, %s when contents are '%s'" l1 l2 n0
        (if n <> n0 then sp "%d instructions" n else "other instructions") name) variants;
  (match !first with Some (n, _) when n > 0 -> () | _ -> failf "harness: tracing does not work");
  if l1 > 0 && l1 = l2 then nontrivial c

(* ============================ C29 ============================ *)
(* several objects built from the same parameters, interleaved *)
let c29_inter c =
  let k = range c 2 4 in
  let kinds = strat c 4 in
  match kinds with
  | 0 ->
    let h = gen_hash_strat c in
    note c "objects" (sp "%d of %s" k h.h_desc);
    let data = Array.init k (fun _ -> bytes_n c (length ~dense:100 ~block:h.h_block ~max:600 c / h.h_unit * h.h_unit)) in
    let objs = Array.init k (fun _ -> h.h_make ()) in
    let pos = Array.make k 0 in
    let live = ref (List.init k (fun i -> i)) in
    while !live <> [] do
      let i = pickl c !live in
      let left = String.length data.(i) - pos.(i) in
      if left = 0 then begin
        check_eq "result of an interleaved hash" (h.h_ref data.(i)) objs.(i)#result;
        if bool c then objs.(i)#wipe;
        live := List.filter (fun j -> j <> i) !live
      end else begin
        let n = range c 1 (min left 200) in
        feed_piece c (feeder_h objs.(i)) (String.sub data.(i) pos.(i) n);
        pos.(i) <- pos.(i) + n
      end
    done;
    nontrivial c
  | 1 ->
    let ti = gen_transform c in
    note c "objects" (sp "%d of %s" k ti.t_desc);
    let data = Array.init k (fun _ -> ti.t_gen c (length ~dense:100 ~block:ti.t_block ~max:600 c)) in
    let objs = Array.init k (fun _ -> ti.t_make ()) in
    let outb = Array.init k (fun _ -> Buffer.create 50) in
    let pos = Array.make k 0 in
    let live = ref (List.init k (fun i -> i)) in
    while !live <> [] do
      let i = pickl c !live in
      let left = String.length data.(i) - pos.(i) in
      if left = 0 then begin
        objs.(i)#finish;
        Buffer.add_string outb.(i) objs.(i)#get_string;
        check_eq "output of an interleaved transform" (ti.t_ref data.(i)) (Buffer.contents outb.(i));
        if bool c then objs.(i)#wipe;
        live := List.filter (fun j -> j <> i) !live
      end else begin
        let n = range c 1 (min left 200) in
        feed_piece c (feeder_t objs.(i)) (String.sub data.(i) pos.(i) n);
        pos.(i) <- pos.(i) + n;
        if chance c 1 3 then Buffer.add_string outb.(i) objs.(i)#get_string
      end
    done;
    nontrivial c
  | 2 ->
    let a = if bool c then a_gcm c else a_chapoly c in
    note c "objects" (sp "%d of %s" k a.a_desc);
    let data = Array.init k (fun _ -> bytes_n c (length ~dense:100 ~block:16 ~max:600 c)) in
    let dirs = Array.init k (fun _ -> bool c) in
    let refs = Array.map a.a_ref data in
    let input = Array.mapi (fun i m -> if dirs.(i) then m else fst refs.(i)) data in
    let objs = Array.init k (fun i -> a.a_make dirs.(i)) in
    let pos = Array.make k 0 in
    let live = ref (List.init k (fun i -> i)) in
    while !live <> [] do
      let i = pickl c !live in
      let left = String.length input.(i) - pos.(i) in
      if left = 0 then begin
        let tag = objs.(i)#finish_and_get_tag in
        check_eq "tag of an interleaved object" (snd refs.(i)) tag;
        check_eq "output of an interleaved object" (if dirs.(i) then fst refs.(i) else data.(i)) objs.(i)#get_string;
        if bool c then objs.(i)#wipe;
        live := List.filter (fun j -> j <> i) !live
      end else begin
        let n = range c 1 (min left 200) in
        feed_piece c (feeder_a objs.(i)) (String.sub input.(i) pos.(i) n);
        pos.(i) <- pos.(i) + n
      end
    done;
    nontrivial c
  | _ ->
    let seed = bytes_n c (range c 16 50) in
    let aes = bool c in
    note c "objects" (sp "%d generators, seed of %d bytes" k (String.length seed));
    let seed0 = Bytes.to_string (Bytes.of_string seed) in
    let objs = Array.init k (fun _ -> if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed) in
    let outb = Array.init k (fun _ -> Buffer.create 50) in
    for _ = 1 to range c 2 20 do
      let i = draw c (k - 1) in
      Buffer.add_string outb.(i) (C.Random.string objs.(i) (range c 0 80))
    done;
    check_eq "seed" seed0 seed;
    let full = P2.seed_stream ~aes seed 1700 in
    Array.iter (fun b -> check_eq "stream of an interleaved generator" (String.sub full 0 (Buffer.length b)) (Buffer.contents b)) outb;
    nontrivial c

(* different kinds of objects, interleaved *)
let c29_mixed c =
  let k = range c 2 5 in
  let mk i : string * (unit -> bool) =
    (* a step function: returns true when finished *)
    match draw c 2 with
    | 0 ->
      let h = gen_hash c in
      let data = bytes_n c (range c 0 300 / h.h_unit * h.h_unit) in
      let o = h.h_make () in
      let pos = ref 0 in
      (h.h_desc, fun () ->
        let left = String.length data - !pos in
        if left = 0 then (check_eq "result of an interleaved hash" (h.h_ref data) o#result; o#wipe; true)
        else (let n = range c 1 left in feed_piece c (feeder_h o) (String.sub data !pos n); pos := !pos + n; false))
    | 1 ->
      let ti = gen_transform c in
      let data = ti.t_gen c (range c 0 300) in
      let o = ti.t_make () in
      let pos = ref 0 in
      (ti.t_desc, fun () ->
        let left = String.length data - !pos in
        if left = 0 then (o#finish; check_eq "output of an interleaved transform" (ti.t_ref data) o#get_string; o#wipe; true)
        else (let n = range c 1 left in feed_piece c (feeder_t o) (String.sub data !pos n); pos := !pos + n; false))
    | _ ->
      let a = if bool c then a_gcm c else a_chapoly c in
      let data = bytes_n c (range c 0 300) in
      let o = a.a_make true in
      let pos = ref 0 in
      (a.a_desc, fun () ->
        let left = String.length data - !pos in
        if left = 0 then begin
          let tag = o#finish_and_get_tag in
          let (ct, tg) = a.a_ref data in
          check_eq "ciphertext of an interleaved object" ct o#get_string; check_eq "tag of an interleaved object" tg tag; o#wipe; true end
        else (let n = range c 1 left in feed_piece c (feeder_a o) (String.sub data !pos n); pos := !pos + n; false)) in
  let steps = List.init k mk in
  note c "objects" (String.concat " | " (List.map fst steps));
  let live = ref (List.map snd steps) in
  let count = ref 0 in
  while !live <> [] do
    incr count;
    let f = pickl c !live in
    if f () then live := List.filter (fun g -> g != f) !live
  done;
  if !count >= 4 then nontrivial c

(* objects that come and go: a new object may be given the memory of one that
   died, and still behaves as a fresh object *)
let c29_reuse c =
  let k = range c 2 3 in
  let rounds = range c 3 12 in
  let full = chance c 1 4 in
  let collect () = if full then Gc.full_major () else Gc.minor () in
  match strat c 5 with
  | 0 | 1 ->
    let g = gen_transform_family c in
    let insts = Array.init k (fun _ -> g c) in
    note c "objects" (String.concat " | " (Array.to_list (Array.map (fun t -> t.t_desc) insts)));
    for r = 1 to rounds do
      let ti = insts.(draw c (k - 1)) in
      let m = ti.t_gen c (range c 0 80) in
      let exp = ti.t_ref m in
      collect ();
      let o = ti.t_make () in
      o#put_string m; o#finish;
      check_eq (sp "output of object %d" r) exp o#get_string;
      if chance c 1 3 then o#wipe
    done; nontrivial c
  | 2 ->
    let insts = Array.init k (fun _ -> if bool c then a_gcm c else a_chapoly c) in
    note c "objects" (String.concat " | " (Array.to_list (Array.map (fun t -> t.a_desc) insts)));
    for r = 1 to rounds do
      let a = insts.(draw c (k - 1)) in
      let m = bytes_n c (range c 0 80) in
      let (ct, tg) = a.a_ref m in
      collect ();
      let o = a.a_make true in
      o#put_string m;
      let tag = o#finish_and_get_tag in
      check_eq (sp "output of object %d" r) ct o#get_string;
      check_eq (sp "tag of object %d" r) tg tag;
      if chance c 1 3 then o#wipe
    done; nontrivial c
  | _ ->
    let j = draw c 1000 in
    let insts = Array.init k (fun _ -> if bool c then gen_hash c else gen_hash_at j c) in
    note c "objects" (String.concat " | " (Array.to_list (Array.map (fun t -> t.h_desc) insts)));
    for r = 1 to rounds do
      let h = insts.(draw c (k - 1)) in
      let m = bytes_n c (range c 0 200 / h.h_unit * h.h_unit) in
      let exp = h.h_ref m in
      collect ();
      let o = h.h_make () in
      o#add_string m;
      check_eq (sp "result of object %d" r) exp o#result;
      if chance c 1 3 then o#wipe
    done; nontrivial c

(* every generated string is compared at the end with a copy *)
let unaltered (body : ctx -> unit) c =
  let seen = ref [] in
  bytes_hook := (fun s -> seen := (s, Bytes.to_string (Bytes.of_string s)) :: !seen; s);
  let reset () = bytes_hook := (fun s -> s) in
  match body c with
  | () -> reset (); List.iter (fun (s, copy) -> if not (String.equal s copy) then failf "an input string was altered: %s became %s" (show copy) (show s)) !seen
  | exception e -> reset (); raise e

(* strings handed to one-shot functions *)
let c29_oneshot c =
  let rng = C.Random.pseudo_rng (expand (draw c 0xFFFF) 32) in
  (match strat c 5 with
   | 0 ->
     note c "operation" "RSA";
     let (priv, pub) = C.RSA.new_key ~rng (2 * range c 20 60) in
     let copy s = Bytes.to_string (Bytes.of_string s) in
     let fields () = C.RSA.[ priv.n; priv.d; priv.p; priv.q; priv.dp; priv.dq; priv.qinv; pub.n; pub.e ] in
     let before = List.map copy (fields ()) in
     let m = bytes_n c (range c 0 4) in
     let r1 = C.RSA.encrypt pub m in
     let r1c = copy r1 in
     let x = C.RSA.decrypt priv r1 and y = C.RSA.decrypt_CRT priv r1 in
     check_eq "decrypt" x y;
     ignore (C.RSA.unwrap_signature pub (C.RSA.sign_CRT priv m));
     check_eq "ciphertext string" r1c r1;
     check_eq "second encryption" r1c (C.RSA.encrypt pub m);
     check_eq "second decryption" x (C.RSA.decrypt priv r1);
     List.iter2 (fun a b -> check_eq "key component" a b) before (fields ())
   | 1 ->
     note c "operation" "Paillier";
     let (priv, pub) = C.Paillier.new_key ~rng (2 * range c 20 40) in
     let copy s = Bytes.to_string (Bytes.of_string s) in
     let fields () = C.Paillier.[ priv.n; priv.n2; priv.p; priv.q; priv.lambda; priv.mu; pub.n; pub.n2; pub.g ] in
     let before = List.map copy (fields ()) in
     let m = bytes_n c (range c 0 4) in
     let x = C.Paillier.encrypt ~rng pub m in
     let xc = copy x in
     let d1 = C.Paillier.decrypt priv x in
     ignore (C.Paillier.add pub x x);
     check_eq "ciphertext string" xc x;
     check_eq "second decryption" d1 (C.Paillier.decrypt priv x);
     List.iter2 (fun a b -> check_eq "key component" a b) before (fields ())
   | 2 ->
     note c "operation" "DH";
     let p = C.DH.new_parameters ~rng ~privlen:(range c 8 60) (range c 64 100) in
     let copy s = Bytes.to_string (Bytes.of_string s) in
     let pc = copy p.C.DH.p and gc = copy p.C.DH.g in
     let s1 = C.DH.private_secret ~rng p and s2 = C.DH.private_secret ~rng p in
     let m1 = C.DH.message p s1 in
     let m1' = C.DH.message p s1 in
     let m2 = C.DH.message p s2 in
     check_eq "message computed twice" m1 m1';
     let m1c = copy m1 and m2c = copy m2 in
     let k1 = C.DH.shared_secret p s1 m2 in
     let k2 = C.DH.shared_secret p s2 m1 in
     check_eq "shared secrets" k1 k2;
     check_eq "message string" m1c m1; check_eq "message string" m2c m2;
     check_eq "p" pc p.C.DH.p; check_eq "g" gc p.C.DH.g;
     let kc = copy k1 in
     let d1 = C.DH.derive_key ~diversification:(bytes_n c 5) k1 40 in
     check_eq "shared secret string" kc k1;
     let d1c = copy d1 in
     ignore (C.DH.derive_key k1 40); check_eq "derived key" d1c d1
   | 3 ->
     note c "operation" "modular arithmetic, comparison, xor";
     let a = bytes_n c (range c 1 30) and b = bytes_n c (range c 1 30) in
     let m = bytes_n c 20 ^ "\001" in
     ignore (C.mod_mult a b m);
     ignore (C.mod_power (C.mod_mult a "\001" m) b m);
     ignore (C.string_equal a b);
     let d = Bytes.create (String.length a) in
     C.xor_string a 0 d 0 (String.length a)
   | _ ->
     note c "operation" "one-shot transforms and hashes";
     let ti = gen_transform c in
     let m = ti.t_gen c (range c 0 200) in
     let r = C.transform_string (ti.t_make ()) m in
     check_eq "transform_string" (ti.t_ref m) r;
     let h = gen_hash c in
     let m = bytes_n c (range c 0 200 / h.h_unit * h.h_unit) in
     let d1 = C.hash_string (h.h_make ()) m in
     let d1c = Bytes.to_string (Bytes.of_string d1) in
     check_eq "hash_string" (h.h_ref m) (C.hash_string (h.h_make ()) m);
     check_eq "earlier digest" d1c d1;
     let a = if bool c then a_gcm c else a_chapoly c in
     let m = bytes_n c (range c 0 200) in
     let x = C.auth_transform_string (a.a_make true) m in
     let xc = Bytes.to_string (Bytes.of_string x) in
     (match C.auth_check_transform_string (a.a_make false) x with Some r -> check_eq "auth_check_transform_string" m r | None -> failf "authentication failed");
     check_eq "authenticated ciphertext string" xc x);
  nontrivial c

(* ============================ C30 ============================ *)
exception Rng_failure of int
class logged_rng seed (fail_at : int) =
  object
    val mutable calls = 0
    val mutable bytes = 0
    method calls = calls
    method bytes = bytes
    method random_bytes (b : bytes) o n =
      if o < 0 || n < 0 || o > Bytes.length b - n then failf "the random source was asked for an out-of-range request (%d, %d of %d)" o n (Bytes.length b);
      if calls = fail_at then raise (Rng_failure calls);
      calls <- calls + 1; bytes <- bytes + n;
      Bytes.blit_string (expand (seed + 7919 * calls) n) 0 b o n
    method wipe = ()
  end

let c30 c =
  let seed = draw c 0x3FFFFFFF in
  let rsa (k : C.RSA.private_key * C.RSA.public_key) = let (a, b) = k in C.RSA.(String.concat "|" [ a.n; a.d; a.p; a.q; a.dp; a.dq; a.qinv; b.n; b.e ]) in
  let pai (k : C.Paillier.private_key * C.Paillier.public_key) = let (a, b) = k in C.Paillier.(String.concat "|" [ a.n; a.n2; a.p; a.q; a.lambda; a.mu; b.n; b.n2; b.g ]) in
  (* influence: with [bits] of freedom, two sources almost surely give different results *)
  let (desc, (op : C.Random.rng -> string)) = match strat c 6 with
    | 0 -> let bits = 2 * range c 40 90 in (sp "RSA.new_key %d" bits, fun rng -> rsa (C.RSA.new_key ~rng bits))
    | 1 -> let bits = 2 * range c 40 90 in let e = pick c [| 3; 17; 65537 |] in (sp "RSA.new_key ~e:%d %d" e bits, fun rng -> rsa (C.RSA.new_key ~rng ~e bits))
    | 2 -> let bits = 2 * range c 40 70 in (sp "Paillier.new_key %d" bits, fun rng -> pai (C.Paillier.new_key ~rng bits))
    | 3 -> let bits = range c 80 150 in let privlen = range c 64 (bits - 1) in
      (sp "DH.new_parameters ~privlen:%d %d" privlen bits, fun rng -> let p = C.DH.new_parameters ~rng ~privlen bits in String.concat "|" [ p.C.DH.p; p.C.DH.g; string_of_int p.C.DH.privlen ])
    | 4 ->
      let p = C.DH.new_parameters ~rng:(new logged_rng 12345 (-1) :> C.Random.rng) ~privlen:100 140 in
      let privlen = range c 64 139 in
      let p = { p with C.DH.privlen } in
      (sp "DH.private_secret, %d bits" privlen, fun rng -> let s = C.DH.private_secret ~rng p in C.DH.message p s)
    | _ ->
      let bits = 2 * range c 40 70 in
      let (_, pub) = C.Paillier.new_key ~rng:(new logged_rng (draw c 0xFFFF) (-1) :> C.Random.rng) bits in
      let m = bytes_n c (range c 0 6) in
      (sp "Paillier.encrypt, %d bits, message %s" bits (show m), fun rng -> C.Paillier.encrypt ~rng pub m) in
  note c "operation" desc; label c (List.hd (String.split_on_char ' ' desc));
  Hs.ent_script true 1 (-1);
  let finish () = Hs.ent_script false 0 (-1) in
  (try
    let r1 = new logged_rng seed (-1) in
    let x1 = op (r1 :> C.Random.rng) in
    (* other operations and other system randomness in between *)
    Hs.ent_script true 2 (-1);
    if bool c then ignore (C.hash_string (C.Hash.sha256 ()) desc);
    let r2 = new logged_rng seed (-1) in
    let x2 = op (r2 :> C.Random.rng) in
    check_eq (desc ^ ": same random bytes, other result") (Refs.sha256 x1) (Refs.sha256 x2);
    check_int (desc ^ ": requests made for the same random bytes") r1#calls r2#calls;
    if Hs.ent_calls () <> 0 then failf "%s draws from the system generator although a source is given" desc;
    if r1#calls = 0 then failf "%s does not draw from its source" desc;
    let x3 = op (new logged_rng (seed + 1) (-1) :> C.Random.rng) in
    if String.equal x1 x3 then failf "%s: the random source does not influence the result" desc;
    (* failure at any request *)
    for _ = 1 to 2 do
      let k = range c 0 (r1#calls - 1) in
      let r = new logged_rng seed k in
      match op (r :> C.Random.rng) with
      | _ -> failf "%s returns although its source failed at request %d" desc k
      | exception Rng_failure j -> check_int "failing request" k j
      | exception (Fail _ as e) -> raise e
      | exception e -> failf "%s: the source raised, but %s was raised" desc (exn_name e)
    done
  with e -> finish (); raise e);
  finish ();
  nontrivial c

(* the private secret depends on all the bits drawn *)
let c30_bits c =
  let privlen = range c 64 200 in
  let p = { C.DH.p = Refs.z_to_be 32 (Z.nextprime (Z.shift_left Z.one 255)); g = "\005"; privlen } in
  let nb = (privlen + 7) / 8 in
  let base = expand (draw c 0xFFFFFF) (nb + 16) in
  let src s = object
    val mutable pos = 0
    method random_bytes b o n = for i = 0 to n - 1 do Bytes.set b (o + i) (if pos < String.length s then s.[pos] else 'x'); pos <- pos + 1 done
    method drawn = pos
    method wipe = () end in
  let m s = let r = src s in let x = C.DH.message p (C.DH.private_secret ~rng:(r :> C.Random.rng) p) in (x, r#drawn) in
  let (x0, drawn) = m base in
  note c "secret" (sp "%d bits" privlen);
  if drawn < nb then failf "private secret of %d bits made from %d random bytes" privlen drawn;
  (* flipping one bit of the source changes the secret for all but a few masked positions *)
  let changed = ref 0 and tried = ref 0 in
  if drawn = nb then begin
    let forced = 8 * nb - privlen + 1 in
    for _ = 1 to 12 do
      let i = range c 0 (8 * nb - 1) in
      let s = String.mapi (fun j ch -> if j = i / 8 then Char.chr (Char.code ch lxor (1 lsl (i land 7))) else ch) base in
      incr tried;
      if fst (m s) <> x0 then incr changed
    done;
    (* at most [forced] <= 8 of at least 64 positions are masked *)
    if !changed < 4 then failf "only %d of %d bits drawn influence the secret (%d may be masked)" !changed !tried forced
  end;
  nontrivial c

let register () =
  sub "C20" "objects" 2400 c20;
  sub "C20" "oneshot" 800 c20_oneshot;
  sub "C20" "utils" 1500 c20_utils;
  sub "C21" "parameters" 20000 c21;
  sub "C22" "highofs" 2000 (highofs high_kinds);
  sub "C01" "highofs" 600 (highofs [| `Block; `Chain |]);
  sub "C02" "highofs" 300 (highofs [| `Chain; `Transform |]);
  sub "C03" "highofs" 600 (highofs [| `Stream |]);
  sub "C06" "highofs" 600 (highofs [| `Hash |]);
  sub "C09" "highofs" 300 (highofs [| `Auth |]);
  sub "C17" "highofs" 200 (highofs [| `Zlib |]);
  sub "C18" "highofs" 300 (highofs [| `Prng |]);
  sub "C19" "highofs" 600 (highofs [| `SysRng; `Device; `Hw |]);
  sub "C27" "highofs" 600 (highofs [| `Xor; `XorStr |]);
  sub "C22" "g_pairs" (4 * Array.length all_hash_kinds) (fun c ->
    with_guards (fun () -> hash_pairs (fun n -> Hs.guard_alloc n true) c));
  sub "C22" "feed" 6000 c22_feed;
  sub "C22" "pairs" 6000 c22_pairs;
  sub "C22" "rng" 3000 c22_rng;
  sub "C22" "zlib" 1500 c22_zlib;
  sub "C22" "g_blocks" 1500 (guarded c01);
  sub "C22" "g_modes" 1500 (guarded c02_modes);
  sub "C22" "g_history" 2000 (guarded c05);
  sub "C22" "g_hash" 3000 (guarded c06);
  sub "C22" "g_aead" 1500 (guarded c09);
  sub "C22" "g_encode" 1000 (guarded P2.c15_encode);
  sub "C22" "g_decode" 1000 (guarded P2.c15_decode);
  sub "C22" "g_hexdecode" 1000 (guarded P2.c16_decode);
  sub "C22" "g_mod" 1000 (guarded P2.c14_power);
  sub "C22" "g_equal" 1000 (guarded c27_equal);
  sub "C23" "programs" 1600 c23_prog;
  sub "C23" "points" 520 c23_points;
  sub "C23" "released" 200 c23_released;
  sub "C25" "files" 3000 c25;
  sub "C25" "pipe" 300 c25_pipe;
  sub "C26" "compose" 6000 c26_compose;
  sub "C26" "flush" 3000 c26_flush;
  sub "C26" "hash" 6000 c26_hash;
  sub "C27" "equal" 10000 c27_equal;
  sub "C27" "xor" 10000 c27_xor;
  sub "C27" "huge" 3 ~thorough:12 ~cpu_limit:600. ~only:[ "hw" ] c27_huge;
  sub ~thorough:3000 "C28" "trace" 240 c28;
  sub "C29" "same" 4000 (unaltered c29_inter);
  sub "C29" "mixed" 3000 (unaltered c29_mixed);
  sub "C29" "oneshot" 2000 (unaltered c29_oneshot);
  sub "C29" "raw" 3000 (unaltered (c02_raw_gen ~src:true));
  sub "C29" "reuse" 2500 (unaltered c29_reuse);
  sub "C29" "u_modes" 1500 (unaltered c02_modes);
  sub "C29" "u_aead" 1500 (unaltered c09);
  sub "C29" "u_hash" 2000 (unaltered c06);
  sub "C29" "u_stream" 1000 (unaltered c03_transform);
  sub "C30" "source" 1500 c30;
  sub "C30" "bits" 1000 c30_bits
