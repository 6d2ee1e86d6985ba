(* Programs over the public interface that return a transcript of everything
   observable; used where two executions are compared with each other. *)
open Pbt
open Objs
module C = Cryptokit

let exn = P1.exn_name
let out b k v = Buffer.add_string b k; Buffer.add_char b '='; Buffer.add_string b v; Buffer.add_char b '\n'
let outs b k f = match f () with
  | s -> out b k (hex s)
  | exception (Fail _ as e) -> raise e
  | exception e -> out b k ("raises " ^ exn e)

let p_hash c b =
  let h = gen_hash_strat c in
  let n = length ~dense:150 ~block:h.h_block ~max:2500 c in
  let m = bytes_n c n in
  out b "hash" h.h_desc; note c "program" ("hash " ^ h.h_desc);
  outs b "digest" (fun () ->
    let o = h.h_make () in
    ignore (feed_all ~block:h.h_block c (feeder_h o) m);
    !step_hook ();
    let r = o#result in
    if o#hash_size <> String.length r then out b "hash_size" (string_of_int o#hash_size);
    r)

let run_t c b (t : C.transform) data =
  let f = feeder_t t in
  let pos = ref 0 in
  List.iter (fun n ->
    feed_piece c f (String.sub data !pos n); pos := !pos + n;
    if chance c 1 5 then (match t#flush with () -> () | exception e -> out b "flush" (exn e));
    if chance c 1 3 then (!step_hook (); out b "out" (hex t#get_string))) (chunks c (String.length data));
  !step_hook ();
  (match t#finish with () -> () | exception e -> out b "finish" (exn e));
  out b "avail" (string_of_int t#available_output);
  out b "out" (hex t#get_string)

let p_transform c b =
  let ti = match strat c 12 with 0 -> t_arcfour c | 1 | 2 -> t_chacha c | 3 -> t_b64enc c | 4 -> t_b64dec c | 5 -> t_hexenc c
    | 6 -> t_hexdec c | 7 -> t_b64multi c | _ -> t_cipher c in
  out b "transform" ti.t_desc; note c "program" ti.t_desc;
  let n = length ~dense:150 ~block:ti.t_block ~max:1500 c in
  let data = ti.t_gen c n in
  let data = if chance c 1 5 && data <> "" then String.sub data 0 (String.length data - 1) else data in
  match ti.t_make () with
  | t -> (match run_t c b t data with () -> () | exception (Fail _ as e) -> raise e | exception e -> out b "raised" (exn e))
  | exception e -> out b "make" (exn e)

let p_auth c b =
  let a = if strat c 2 = 0 then a_gcm c else a_chapoly c in
  let m = bytes_n c (length ~dense:140 ~block:16 ~max:1500 c) in
  out b "aead" a.a_desc; note c "program" a.a_desc;
  let t = a.a_make true in
  ignore (feed_all ~block:a.a_block c (feeder_a t) m);
  !step_hook ();
  let tag = t#finish_and_get_tag in
  let ct = t#get_string in
  out b "ct" (hex ct); out b "tag" (hex tag);
  let full = ct ^ tag in
  let full = if chance c 1 3 then (let i = range c 0 (String.length full - 1) in String.mapi (fun j ch -> if i = j then Char.chr (Char.code ch lxor 4) else ch) full) else full in
  !step_hook ();
  (match C.auth_check_transform_string (a.a_make false) full with
   | None -> out b "dec" "None" | Some s -> out b "dec" (hex s))

let p_block c b =
  let blk = blk_std c in
  out b "block" blk.b_name; note c "program" ("block cipher " ^ blk.b_name ^ " key=" ^ show blk.b_key);
  let e = blk.b_mk_enc () and d = blk.b_mk_dec () in
  for _ = 1 to range c 1 6 do
    let x = bytes_n c blk.b_bs in
    let buf = Bytes.of_string (x ^ x) in
    !step_hook ();
    (if bool c then e else d)#transform buf 0 buf blk.b_bs;
    out b "blk" (hex (Bytes.to_string buf))
  done

let p_rng c b =
  let seed = bytes_n c (range c 0 60) in
  let aes = bool c in
  note c "program" (sp "pseudo_rng%s seed=%s" (if aes then "_aes_ctr" else "") (show seed));
  match (if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed) with
  | exception e -> out b "rng" (exn e)
  | r ->
    for _ = 1 to range c 1 6 do
      let n = range c 0 150 in
      !step_hook ();
      out b "rnd" (hex (C.Random.string r n))
    done

let p_pk c b =
  let seed = expand (draw c 0x3FFFFFFF) 32 in
  let rng = C.Random.pseudo_rng seed in
  match strat c 4 with
  | 0 ->
    let bits = 2 * range c 16 100 in
    let e = if bool c then Some (pick c [| 3; 17; 65537 |]) else None in
    note c "program" (sp "RSA %d bits" bits);
    !step_hook ();
    let (priv, pub) = C.RSA.new_key ~rng ?e bits in
    out b "n" (hex pub.C.RSA.n); out b "e" (hex pub.C.RSA.e); out b "d" (hex priv.C.RSA.d);
    let m = bytes_n c (range c 0 (bits / 8 + 1)) in
    outs b "enc" (fun () -> !step_hook (); let x = C.RSA.encrypt pub m in !step_hook (); out b "dec" (hex (C.RSA.decrypt priv x)); !step_hook (); out b "crt" (hex (C.RSA.decrypt_CRT priv x)); x);
    outs b "sig" (fun () -> !step_hook (); C.RSA.sign_CRT priv m)
  | 1 ->
    let bits = 2 * range c 16 60 in
    note c "program" (sp "Paillier %d bits" bits);
    !step_hook ();
    let (priv, pub) = C.Paillier.new_key ~rng bits in
    out b "n" (hex pub.C.Paillier.n); out b "mu" (hex priv.C.Paillier.mu);
    let m = bytes_n c (range c 0 (bits / 8 - 1)) in
    outs b "enc" (fun () -> !step_hook (); let x = C.Paillier.encrypt ~rng pub m in !step_hook (); out b "dec" (hex (C.Paillier.decrypt priv x)); !step_hook (); out b "add" (hex (C.Paillier.add pub x x)); x)
  | 2 ->
    let bits = range c 32 150 in
    let privlen = range c 8 (bits - 1) in
    note c "program" (sp "DH %d %d" bits privlen);
    !step_hook ();
    let p = C.DH.new_parameters ~rng ~privlen bits in
    out b "p" (hex p.C.DH.p); out b "g" (hex p.C.DH.g);
    !step_hook ();
    let s1 = C.DH.private_secret ~rng p and s2 = C.DH.private_secret ~rng p in
    let m1 = C.DH.message p s1 in
    !step_hook ();
    out b "m1" (hex m1); out b "s" (hex (C.DH.shared_secret p s2 m1));
    outs b "key" (fun () -> C.DH.derive_key ~diversification:(bytes_n c (range c 0 10)) m1 (range c 0 100))
  | _ ->
    let a = bytes_n c (range c 0 40) and e = bytes_n c (range c 0 40) and m = bytes_n c (range c 1 40) in
    note c "program" "modular arithmetic";
    if not (String.for_all (fun ch -> ch = '\000') m) then begin
      !step_hook ();
      outs b "mult" (fun () -> C.mod_mult a e m);
      let a = C.mod_mult a "\001" m in
      !step_hook ();
      outs b "pow" (fun () -> C.mod_power a e m)
    end

let p_zlib c b =
  let zlib = bool c in
  let m = P2.compressible c (length ~dense:100 ~block:256 ~max:4000 c) in
  note c "program" (sp "zlib %b %d bytes" zlib (String.length m));
  match C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zlib () with
  | exception e -> out b "compress" (exn e);
    (match C.Zlib.uncompress () with exception e -> out b "uncompress" (exn e) | _ -> out b "uncompress" "object")
  | t ->
    let z = P1.feed_transform c t m in
    !step_hook ();
    (match C.transform_string (C.Zlib.uncompress ~expect_zlib_header:zlib ()) z with
     | s -> out b "un" (hex s) | exception e -> out b "un" (exn e));
    out b "z" (hex z)

let p_misc c b =
  match strat c 3 with
  | 0 ->
    let n = range c 0 200 in
    let s = bytes_n c (n + range c 0 9) and d = Bytes.of_string (bytes_n c (n + range c 0 9)) in
    let so = range c 0 (String.length s - n) and d_o = range c 0 (Bytes.length d - n) in
    note c "program" (sp "xor %d %d %d" so d_o n);
    !step_hook ();
    C.xor_string s so d d_o n; out b "xor" (hex (Bytes.to_string d));
    C.xor_bytes (Bytes.of_string s) so d d_o n; out b "xor" (hex (Bytes.to_string d))
  | 1 ->
    let s = bytes_n c (range c 0 40) in
    let t = if bool c then String.sub s 0 (String.length s) else bytes_n c (range c 0 40) in
    note c "program" "comparison";
    out b "eq" (string_of_bool (C.string_equal s t));
    out b "eq" (string_of_bool (C.bytes_equal (Bytes.of_string s) (Bytes.of_string t)))
  | _ ->
    let bs = range c 1 40 in
    let blk = Bytes.of_string (bytes_n c bs) in
    let k = range c 1 bs in
    if bool c then Bytes.fill blk (bs - k) k (Char.chr k);
    note c "program" "padding";
    List.iter (fun (sc : C.Padding.scheme) ->
      match sc#strip blk with n -> out b "strip" (string_of_int n) | exception e -> out b "strip" (exn e))
      [ C.Padding.length; C.Padding._8000 ]

let p_errors c b =
  let key = bytes_n c (range c 0 60) in
  let k = draw c 15 in
  let len = range c 0 40 in
  let iv = bytes_n c len in
  let sz = draw c 600 in
  note c "program" (sp "parameters %d key=%d iv=%d size=%d" k (String.length key) len sz);
  let tr (f : unit -> C.transform) () = C.transform_string (f ()) (expand 5 48) in
  let hh (f : unit -> C.hash) () = C.hash_string (f ()) (expand 5 48) in
  let au (f : unit -> C.authenticated_transform) () = C.auth_transform_string (f ()) (expand 5 50) in
  !step_hook ();
  let d = if bool c then C.Cipher.Encrypt else C.Cipher.Decrypt in
  let ad = if d = C.Cipher.Encrypt then C.AEAD.Encrypt else C.AEAD.Decrypt in
  outs b (string_of_int k) (match k with
    | 0 -> tr (fun () -> C.Cipher.aes key d) | 1 -> tr (fun () -> C.Cipher.des key d) | 2 -> tr (fun () -> C.Cipher.triple_des key d)
    | 3 -> tr (fun () -> C.Cipher.blowfish key d) | 4 -> tr (fun () -> C.Cipher.arcfour key d) | 5 -> tr (fun () -> C.Cipher.chacha20 ~iv key d)
    | 6 -> tr (fun () -> C.Cipher.aes ~mode:(C.Cipher.CTR_N (1 + sz mod 16)) ~iv (expand 1 16) d)
    | 7 -> hh (fun () -> C.Hash.sha2 sz) | 8 -> hh (fun () -> C.Hash.sha3 sz) | 9 -> hh (fun () -> C.MAC.blake2b sz key) | 10 -> hh (fun () -> C.MAC.blake2s sz key)
    | 11 -> hh (fun () -> C.MAC.aes_cmac ~iv key) | 12 -> hh (fun () -> C.MAC.siphash key)
    | 13 -> au (fun () -> C.AEAD.aes_gcm ~iv key ad) | 14 -> au (fun () -> C.AEAD.chacha20_poly1305 ~iv key ad)
    | _ -> tr (fun () -> C.Cipher.aes ~pad:C.Padding.length (expand 1 16) d))

(* several objects created first, then used in another order *)
let p_several c b =
  let n = range c 2 5 in
  let mk _ =
    match strat c 8 with
    | 0 | 1 | 2 ->
      let blk = if bool c then blk_aes c else blk_std c in
      let dec = bool c in
      let o = if dec then blk.b_mk_dec () else blk.b_mk_enc () in
      (sp "%s %s" blk.b_name (if dec then "decrypt" else "encrypt"),
       fun x -> let buf = Bytes.of_string (String.sub x 0 blk.b_bs) in o#transform buf 0 buf 0; hex (Bytes.to_string buf))
    | 3 | 4 ->
      let ti = t_cipher c in
      (match ti.t_make () with
       | t -> (ti.t_desc, fun x -> t#put_string x; hex t#get_string)
       | exception e -> (ti.t_desc, fun _ -> exn e))
    | 5 | 6 ->
      let a = if bool c then a_gcm c else a_chapoly c in
      let t = a.a_make (bool c) in
      (a.a_desc, fun x -> t#put_string x; hex t#get_string)
    | _ ->
      let h = gen_hash_strat c in
      let o = h.h_make () in
      (h.h_desc, fun x -> o#add_string x; "") in
  let objs = Array.init n mk in
  note c "program" (String.concat "; " (Array.to_list (Array.map fst objs)));
  for _ = 1 to range c 2 10 do
    let (d, f) = objs.(range c 0 (n - 1)) in
    let x = bytes_n c 48 in
    !step_hook ();
    match f x with r -> out b d r | exception (Fail _ as e) -> raise e | exception e -> out b d (exn e)
  done

(* operands at the edges of the arithmetic of the authenticators *)
let p_edge c b =
  let tag ?header ~iv key d m mk =
    let t = mk ?header ~iv key d in
    ignore (feed_all ~block:16 c (feeder_a t) m);
    !step_hook ();
    let tag = t#finish_and_get_tag in
    out b "out" (hex t#get_string); out b "tag" (hex tag) in
  match strat c 5 with
  | 0 ->
    let (key, iv, header, ct) = P1.poly_edge_case c in
    note c "program" "Poly1305, extreme blocks";
    tag ~header ~iv key C.AEAD.Decrypt ct (fun ?header ~iv k d -> C.AEAD.chacha20_poly1305 ?header ~iv k d)
  | 1 | 2 | 3 ->
    note c "program" "Poly1305, extreme accumulators";
    (match P1.poly_carry_case c with
     | None -> ()
     | Some (key, iv, ct) -> tag ~iv key C.AEAD.Decrypt ct (fun ?header ~iv k d -> C.AEAD.chacha20_poly1305 ?header ~iv k d))
  | _ ->
    let (key, iv, _, header, m) = P1.gcm_wrap_case c in
    note c "program" "GCM, counter wraps";
    tag ~header ~iv key (if bool c then C.AEAD.Encrypt else C.AEAD.Decrypt) m (fun ?header ~iv k d -> C.AEAD.aes_gcm ?header ~iv k d)

let programs = [| ("hash", p_hash); ("transform", p_transform); ("auth", p_auth); ("block", p_block); ("rng", p_rng);
  ("pk", p_pk); ("zlib", p_zlib); ("misc", p_misc); ("errors", p_errors); ("several", p_several); ("edge", p_edge) |]

(* weights by index, for stratified choice *)
let order = [| 0; 1; 2; 9; 1; 2; 3; 0; 1; 2; 4; 5; 6; 7; 0; 9; 2; 8; 3; 5 |]
let gen c = programs.(order.(strat c (Array.length order)))
