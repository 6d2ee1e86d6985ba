(* C31, C32 *)
open Pbt
open Objs
open P1
open P2
module C = Cryptokit

(* ============================ C31 ============================ *)
(* 8-byte windows of the numbers to be looked for: little-endian words and
   big-endian bytes, without those that are nearly constant or that also occur
   in public data *)
let windows secrets publics =
  let pub = Hashtbl.create 64 in
  let both z =
    let le = Z.to_bits z in
    let n = String.length le in
    let be = String.init n (fun i -> le.[n - 1 - i]) in
    (le, be) in
  let wins s step f = let i = ref 0 in while !i + 8 <= String.length s do f (String.sub s !i 8); i := !i + step done in
  List.iter (fun z -> let (le, be) = both z in wins le 1 (fun w -> Hashtbl.replace pub w ()); wins be 1 (fun w -> Hashtbl.replace pub w ())) publics;
  let distinct w = let t = Hashtbl.create 8 in String.iter (fun ch -> Hashtbl.replace t ch ()) w; Hashtbl.length t in
  let b = Buffer.create 256 in
  let names = ref [] in
  List.iter (fun (nm, z) ->
    (* below 2^64 a number may be an immediate: nothing can be said *)
    if Z.numbits z > 64 then begin
      let (le, be) = both z in
      wins le 8 (fun w -> if distinct w >= 6 && not (Hashtbl.mem pub w) then (Buffer.add_string b w; names := (nm ^ " as a number") :: !names));
      let n = String.length be in
      let r = n mod 8 in
      wins (String.sub be r (n - r)) 8 (fun w -> if distinct w >= 6 && not (Hashtbl.mem pub w) then (Buffer.add_string b w; names := (nm ^ " as bytes") :: !names))
    end) secrets;
  (Buffer.contents b, Array.of_list (List.rev !names))

(* for special messages (0, 1, n-1, powers of 2 ...) intermediate results coincide with parts of the key *)
let random_below c n = Z.erem (zbe (expand (1 + draw c 0x3FFFFFFE) ((Z.numbits n + 7) / 8 + 2))) n

let no_copy c secrets publics what f =
  let pats, names = windows secrets publics in
  let rec go k =
    Hs.clear_minor ();
    let m0 = (Gc.quick_stat ()).Gc.minor_collections in
    let r = f () in
    let i = Hs.scan_minor pats in
    let used = Hs.minor_used_words () in
    if (Gc.quick_stat ()).Gc.minor_collections <> m0 then (if k > 0 then go (k - 1) else None) else Some (r, i, used) in
  match go 3 with
  | None -> label c "skipped: collection inside"; None
  | Some (r, i, used) ->
    if i >= 0 then failf "%s leaves a copy of a word of %s in memory" what names.(i);
    label c what;
    if String.length pats >= 32 && used > 20 then nontrivial c;
    Some r

let c31_rsa maxb c =
  let b1 = range c 66 (maxb / 2) in
  let b2 = if bool c then b1 else range c 66 (maxb / 2) in
  let p = gen_prime c b1 in
  let q = gen_prime c b2 in
  if Z.equal p q then () else begin
    let n = Z.mul p q in
    let p1 = Z.pred p and q1 = Z.pred q in
    let phi = if bool c then Z.mul p1 q1 else Z.lcm p1 q1 in
    let rec find_e e = if Z.equal (Z.gcd e phi) Z.one then e else find_e (Z.add e (Z.of_int 2)) in
    let e = find_e (Z.of_int (if bool c then 3 else 65537)) in
    let d = Z.invert e phi in
    let size = Z.numbits n in
    let dp = Z.erem d p1 and dq = Z.erem d q1 and qinv = Z.invert q p in
    let priv = { C.RSA.size; n = be_gen c n; d = be_gen c d; p = be_gen c p; q = be_gen c q; dp = be_gen c dp; dq = be_gen c dq; qinv = be_gen c qinv } in
    let m = random_below c n in
    note c "key" (sp "p=%s q=%s e=%s" (Z.to_string p) (Z.to_string q) (Z.to_string e));
    note c "message" (Z.to_string m);
    let msg = be_gen c m in
    let which = draw c 3 in
    let what, f = match which with
      | 0 -> "RSA.decrypt", C.RSA.decrypt | 1 -> "RSA.sign", C.RSA.sign | 2 -> "RSA.decrypt_CRT", C.RSA.decrypt_CRT | _ -> "RSA.sign_CRT", C.RSA.sign_CRT in
    let x = Z.powm m d n in
    let secrets = if which < 2 then [ ("d", d) ] else [ ("p", p); ("q", q); ("dp", dp); ("dq", dq); ("qinv", qinv) ] in
    (* numbers the computation leaves around and which may coincide with a secret for special messages *)
    let xp = Z.erem x p and xq = Z.erem x q in
    let diff = Z.erem (Z.sub xp xq) p in
    let dq' = Z.mul diff qinv in
    let dqp = Z.erem dq' p in
    let rest = [ n; m; x; Z.erem m p; Z.erem m q; xp; xq; Z.erem xq p; Z.abs (Z.sub xp (Z.erem xq p)); diff; dq'; dqp; Z.mul dqp q ] in
    match no_copy c secrets rest what (fun () -> f priv msg) with
    | None -> ()
    | Some r -> if not (Z.equal (zbe r) x) then failf "%s: wrong result" what
  end

let c31_paillier maxb c =
  let bits = 2 * range c 66 (maxb / 2) in
  let rng = new src_rng c in
  let (priv, pub) = C.Paillier.new_key ~rng:(rng :> C.Random.rng) bits in
  let n = zbe priv.C.Paillier.n in
  let m = random_below c n in
  let msg = be_gen c m in
  let cph = C.Paillier.encrypt ~rng:(rng :> C.Random.rng) pub msg in
  note c "modulus" (Z.to_string n); note c "message" (Z.to_string m);
  let lambda = zbe priv.C.Paillier.lambda and mu = zbe priv.C.Paillier.mu in
  let n2 = Z.mul n n in
  let cn = Z.powm (zbe cph) lambda n2 in
  let lx = Z.div (Z.pred cn) n in
  match no_copy c [ ("lambda", lambda); ("mu", mu) ] [ n; n2; m; zbe cph; cn; Z.pred cn; lx; Z.mul lx mu ] "Paillier.decrypt" (fun () -> C.Paillier.decrypt priv cph) with
  | None -> ()
  | Some r -> if not (Z.equal (zbe r) m) then failf "Paillier.decrypt: wrong result"

(* ============================ C32 ============================ *)
let nfds () = try Array.length (Sys.readdir "/proc/self/fd") with Sys_error _ -> 0

(* [one ()] creates, uses and drops one object *)
let steady what n one =
  let measure () =
    Gc.full_major (); Gc.full_major ();
    let m = Hs.malloc_live () in
    (m, (Gc.quick_stat ()).Gc.heap_words, nfds ()) in
  let live () = (Gc.stat ()).Gc.live_words in
  let round () = for _ = 1 to n do one () done in
  round ();
  let rec go k grown_m grown_l grown_f =
    if k = 0 then begin
      if grown_f then failf "%s: file descriptors stay open (%d objects)" what n;
      if grown_m then failf "%s: memory is not released (at least 16 bytes per object, in every one of 4 rounds of %d objects)" what n;
      if grown_l then failf "%s: OCaml memory stays reachable (at least 2 words per object, in every one of 4 rounds of %d objects)" what n
    end else begin
      let (m0, _, f0) = measure () in
      let l0 = live () in
      round ();
      let (m1, _, f1) = measure () in
      let l1 = live () in
      let gm = grown_m && m1 - m0 >= 16 * n and gl = grown_l && l1 - l0 >= 2 * n and gf = grown_f && f1 > f0 in
      if gm || gl || gf then go (k - 1) gm gl gf
    end in
  go 4 true true true

type fate = Dropped | Wiped | Finished | FinishedWiped
let fate_str = function Dropped -> "dropped" | Wiped -> "wiped" | Finished -> "finished" | FinishedWiped -> "finished and wiped"
let quietly f = try f () with C.Error _ | End_of_file | Invalid_argument _ -> ()

let c32_kind c =
  let fate = [| Dropped; Wiped; Finished; FinishedWiped |].(strat c 4) in
  let n = range c 0 300 in
  let wrong = chance c 1 4 in                 (* end in an error where the object allows it *)
  let fin = fate = Finished || fate = FinishedWiped and wipe = fate = Wiped || fate = FinishedWiped in
  let tr desc mk data =
    (* the choices are those of the case, not of each object *)
    let fl = bool c in
    (desc, fun () ->
       let t : C.transform = mk () in
       quietly (fun () -> t#put_string data; if fl then quietly (fun () -> t#flush); if fin then t#finish; if n land 1 = 0 then ignore t#get_string);
       if wipe then t#wipe) in
  let desc, one = match weighted c [ (6, `Hash); (4, `Tr); (3, `Auth); (4, `Comp); (4, `Uncomp); (1, `BadLevel); (2, `Prng); (1, `Dev); (1, `Sys); (2, `Block); (1, `Comb); (1, `Bad) ] with
    | `Hash ->
      let h = gen_hash c in
      let data = bytes_n c (if wrong then n else n / h.h_unit * h.h_unit) in
      (h.h_desc, fun () -> let o = h.h_make () in quietly (fun () -> o#add_string data; if fin then ignore o#result); if wipe then o#wipe)
    | `Tr -> let ti = gen_transform c in tr ti.t_desc ti.t_make (if wrong then bytes_n c n else ti.t_gen c n)
    | `Auth ->
      let a = if bool c then a_gcm c else a_chapoly c in
      let enc = bool c in
      let data = bytes_n c n in
      (a.a_desc, fun () -> let t = a.a_make enc in quietly (fun () -> t#put_string data; if fin then ignore t#finish_and_get_tag; if n land 1 = 0 then ignore t#get_string); if wipe then t#wipe)
    | `Comp ->
      let level = range c 0 9 in
      let wh = bool c in
      tr (sp "Zlib.compress level %d" level) (fun () -> C.Zlib.compress ~level ~write_zlib_header:wh ()) (bytes_n c n)
    | `Uncomp ->
      let data = if wrong then bytes_n c n else
          (let t = C.Zlib.compress () in let z = C.transform_string t (bytes_n c n) in
           if bool c then z else String.sub z 0 (range c 0 (String.length z))) in
      tr (sp "Zlib.uncompress %s" (show data)) (fun () -> C.Zlib.uncompress ()) data
    | `BadLevel -> ("Zlib.compress with an illegal level", fun () -> quietly (fun () -> ignore (C.Zlib.compress ~level:(42 + n) ())))
    | `Prng ->
      let seed = bytes_n c (range c 16 60) in
      let aes = bool c in
      (sp "pseudo_rng%s" (if aes then "_aes_ctr" else ""), fun () ->
         let o = (if aes then C.Random.pseudo_rng_aes_ctr else C.Random.pseudo_rng) (String.init (String.length seed) (String.get seed)) in
         ignore (C.Random.string o n); if wipe then o#wipe)
    | `Dev ->
      let f = get_dev () in
      if fin then ("Random.device_rng of an absent file", fun () -> (try ignore (C.Random.device_rng (f ^ ".absent")) with C.Error _ | Unix.Unix_error _ | Sys_error _ -> ()))
      else ("Random.device_rng, wiped", fun () -> let o = C.Random.device_rng f in ignore (C.Random.string o (min n 40)); o#wipe)
    | `Sys -> ("Random.system_rng", fun () -> let o = C.Random.system_rng () in ignore (C.Random.string o n); if wipe then o#wipe)
    | `Block ->
      let b = blk_std c in
      let enc = bool c in
      let iv = bytes_n c b.b_bs in
      let ch = bool c in
      (sp "block cipher %s" b.b_name, fun () ->
         let o : C.Block.block_cipher = if enc then b.b_mk_enc () else b.b_mk_dec () in
         let o = if ch then new C.Block.cbc_encrypt ~iv o else o in
         let d = Bytes.create b.b_bs in
         o#transform d 0 d 0; if wipe then o#wipe)
    | `Comb ->
      let ti = gen_transform c in
      let h = gen_hash c in
      let data = ti.t_gen c n in
      (sp "transform_and_hash %s %s" ti.t_desc h.h_desc, fun () ->
         let t = C.transform_and_hash (ti.t_make ()) (h.h_make ()) in
         quietly (fun () -> t#put_string data; if fin then ignore t#finish_and_get_tag); if wipe then t#wipe)
    | `Bad ->
      let k = bytes_n c (pick c [| 1; 7; 9; 15; 17; 33; 65; 257; 600 |]) in
      ("constructors with illegal parameters", fun () ->
         List.iter quietly [
           (fun () -> ignore (C.Cipher.aes k C.Cipher.Encrypt));
           (fun () -> ignore (C.MAC.siphash k));
           (fun () -> ignore (C.MAC.blake3 256 k));
           (fun () -> ignore (C.MAC.blake2s 256 (k ^ k ^ String.make 64 'x')));
           (fun () -> ignore (C.AEAD.aes_gcm ~iv:"0123456789ab" k C.AEAD.Encrypt));
           (fun () -> ignore (C.Hash.sha3 257));
           (fun () -> ignore (C.Hash.blake3 0));
           (fun () -> ignore (C.Cipher.chacha20 k C.Cipher.Encrypt));
           (fun () -> ignore (C.Base64.decode ())) ]) in
  note c "object" desc; note c "then" (fate_str fate); notei c "length" n;
  label c (match String.index_opt desc ' ' with Some i -> String.sub desc 0 i | None -> desc);
  (desc, fate, one)

let c32 c =
  let desc, fate, one = c32_kind c in
  match P3.in_child (fun () -> steady (desc ^ ", " ^ fate_str fate) 24 one) with
  | Ok () -> nontrivial c
  | Error m -> raise (Fail m)

let register () =
  sub "C31" "rsa" 300 (c31_rsa 640);
  sub "C31" "rsa_large" 4 ~thorough:100 (c31_rsa 2400);
  sub "C31" "paillier" 60 (c31_paillier 300);
  sub "C32" "objects" 300 c32
