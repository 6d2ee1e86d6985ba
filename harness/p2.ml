(* C11 .. C19: public key, arithmetic, encodings, compression, generators *)
open Pbt
open Objs
open P1
module C = Cryptokit

let zbe = Refs.z_of_be
let prime z = Z.probab_prime z 25 <> 0
(* big-endian string of a number, minimal or with leading zeros *)
let be_min z = if Z.equal z Z.zero then "" else Refs.z_to_be ((Z.numbits z + 7) / 8) z
let be_gen c z = 
  let m = be_min z in
  match weighted c [ (3, `Min); (1, `Pad) ] with `Min -> m | `Pad -> String.make (range c 1 9) '\000' ^ m

(* random source: generated bytes, with a biased beginning *)
class src_rng c =
  let seed = draw c 0x3FFFFFFF in
  let bias = weighted c [ (5, `None); (2, `Low); (2, `High); (1, `Alt); (1, `Repeat); (1, `Ones) ] in
  let nb = range c 0 6 in
  object
    val mutable calls = 0
    val mutable pos = 0
    method calls = calls
    method random_bytes (b : bytes) o n =
      if o < 0 || n < 0 || o > Bytes.length b - n then failf "rng asked for an out-of-range request (%d, %d of %d)" o n (Bytes.length b);
      calls <- calls + 1;
      let s = expand (seed + 7919 * (if bias = `Repeat && calls = nb + 1 then nb else calls)) n in
      let s = if calls > nb then s else match bias with
        | `None | `Repeat -> s
        | `Ones -> String.make n '\255'
        | `Low -> String.mapi (fun i ch -> if i >= n - 2 then '\000' else ch) s
        | `High -> String.mapi (fun i ch -> if i >= n - 2 then '\255' else ch) s
        | `Alt -> String.mapi (fun i ch -> if i land 1 = 0 then '\000' else ch) s in
      Bytes.blit_string s 0 b o n; pos <- pos + n
    method wipe = ()
  end

(* random source whose first answers encode chosen numbers, in either byte
   order, then generated bytes *)
class planted_rng c (zs : Z.t list) =
  let seed = draw c 0x3FFFFFFF in
  object
    val mutable calls = 0
    val mutable todo = zs
    method random_bytes (b : bytes) o n =
      if o < 0 || n < 0 || o > Bytes.length b - n then failf "rng asked for an out-of-range request (%d, %d of %d)" o n (Bytes.length b);
      calls <- calls + 1;
      let s = match todo with
        | z :: l when (Z.numbits z + 7) / 8 <= n -> todo <- l;
          let be = Refs.z_to_be n z in
          if bool c then be else String.init n (fun i -> be.[n - 1 - i])
        | _ -> expand (seed + 7919 * calls) n in
      Bytes.blit_string s 0 b o n
    method wipe = ()
  end

let below c n =
  (* a number in [0, n) with corner cases *)
  match weighted c [ (1, `Zero); (1, `One); (1, `Max); (6, `Rand); (1, `Pow) ] with
  | `Zero -> Z.zero | `One -> Z.erem Z.one n | `Max -> Z.pred n
  | `Rand -> Z.erem (zbe (expand (draw c 0x3FFFFFFF) ((Z.numbits n + 7) / 8 + 2))) n
  | `Pow -> Z.erem (Z.shift_left Z.one (draw c (Z.numbits n))) n

(* ============================ C11 ============================ *)
let rsa_ops c (priv : C.RSA.private_key) (pub : C.RSA.public_key) n e d p q =
  let len = (pub.C.RSA.size + 7) / 8 in
  let msg = match weighted c [ (6, `Any); (1, `P); (1, `Q) ] with
    | `Any -> below c n
    | `P -> Z.erem (Z.mul p (below c q)) n | `Q -> Z.erem (Z.mul q (below c p)) n in
  let s = be_gen c msg in
  note c "msg" (Z.to_string msg);
  let out what z r =
    check_eq what (Refs.z_to_be len z) r in
  let ct = C.RSA.encrypt pub s in
  out "encrypt" (Refs.powmod msg e n) ct;
  out "decrypt (encrypt m)" msg (C.RSA.decrypt priv ct);
  out "decrypt_CRT (encrypt m)" msg (C.RSA.decrypt_CRT priv ct);
  let sg = C.RSA.sign priv s in
  out "sign" (Refs.powmod msg d n) sg;
  check_eq "sign_CRT" sg (C.RSA.sign_CRT priv s);
  out "unwrap_signature (sign m)" msg (C.RSA.unwrap_signature pub sg);
  (* decrypt of arbitrary ciphertexts *)
  let x = below c n in
  let xs = be_gen c x in
  out "decrypt" (Refs.powmod x d n) (C.RSA.decrypt priv xs);
  out "decrypt_CRT" (Refs.powmod x d n) (C.RSA.decrypt_CRT priv xs);
  (* too long *)
  let big = match weighted c [ (2, `N); (2, `Np); (1, `Huge); (1, `Len) ] with
    | `N -> n | `Np -> Z.add n (Z.of_int (range c 0 300)) | `Huge -> Z.mul n (Z.of_int (range c 2 100000))
    | `Len -> Z.shift_left Z.one (8 * len + range c 0 64) in
  let bs = be_gen c big in
  let f = pick c [| (fun () -> C.RSA.encrypt pub bs); (fun () -> C.RSA.decrypt priv bs); (fun () -> C.RSA.decrypt_CRT priv bs);
    (fun () -> C.RSA.sign priv bs); (fun () -> C.RSA.sign_CRT priv bs); (fun () -> C.RSA.unwrap_signature pub bs) |] in
  expect_error "RSA operation on a message not smaller than the modulus" C.Message_too_long f

let key_bits c maxb = match weighted c [ (3, `Strat); (2, `Any); (1, `Byte) ] with
  | `Strat -> 32 + 2 * strat c 50 | `Any -> 32 + 2 * range c 0 ((maxb - 32) / 2) | `Byte -> 32 + 8 * range c 0 ((maxb - 32) / 8)

let c11_gen maxb c =
  let bits = key_bits c maxb in
  let e = match weighted c [ (2, `No); (3, `Small); (1, `Any) ] with
    | `No -> None | `Small -> Some (pick c [| 3; 5; 7; 17; 257; 65537 |]) | `Any -> Some (3 + 2 * range c 0 20000) in
  let rng = new src_rng c in
  note c "new_key" (sp "bits=%d e=%s" bits (match e with None -> "-" | Some e -> string_of_int e));
  let (priv, pub) = C.RSA.new_key ~rng:(rng :> C.Random.rng) ?e bits in
  let n = zbe priv.C.RSA.n and d = zbe priv.C.RSA.d and p = zbe priv.C.RSA.p and q = zbe priv.C.RSA.q in
  let dp = zbe priv.C.RSA.dp and dq = zbe priv.C.RSA.dq and qinv = zbe priv.C.RSA.qinv in
  let ee = zbe pub.C.RSA.e in
  check_int "private size" bits priv.C.RSA.size; check_int "public size" bits pub.C.RSA.size;
  check "same modulus" (Z.equal n (zbe pub.C.RSA.n));
  check "p is prime" (prime p); check "q is prime" (prime q);
  check "p <> q" (not (Z.equal p q));
  check "n = p * q" (Z.equal n (Z.mul p q));
  check_int "number of bits of the modulus" bits (Z.numbits n);
  (match e with Some e -> check "public exponent" (Z.equal ee (Z.of_int e)) | None -> check "exponent" (Z.gt ee Z.one));
  let p1 = Z.pred p and q1 = Z.pred q in
  check "e * d = 1 mod lcm(p-1,q-1)" (Z.equal (Z.erem (Z.mul ee d) (Z.lcm p1 q1)) Z.one);
  check "d < n" (Z.lt d n);
  check "dp = d mod p-1" (Z.equal dp (Z.erem d p1)); check "dq = d mod q-1" (Z.equal dq (Z.erem d q1));
  check "qinv * q = 1 mod p" (Z.equal (Z.erem (Z.mul qinv q) p) Z.one); check "qinv < p" (Z.lt qinv p);
  check_int "length of n" ((bits + 7) / 8) (String.length priv.C.RSA.n);
  for _ = 1 to 3 do rsa_ops c priv pub n ee d p q done;
  nontrivial c

let gen_prime c bits =
  (* a prime of exactly that many bits, bits >= 5 *)
  let rec go k =
    let x = zbe (expand (k + 1) ((bits + 7) / 8 + 1)) in
    let x = Z.logor (Z.shift_left Z.one (bits - 1)) (Z.extract x 0 (bits - 1)) in
    let p = Z.nextprime x in
    if Z.numbits p = bits then p else go (k + 1) in
  go (draw c 0x3FFFFFFF)

(* keys built elsewhere *)
let c11_ext maxb c =
  let b1 = range c 8 (maxb / 2) in
  let b2 = if bool c then b1 else range c 8 (maxb / 2) in
  let p = gen_prime c b1 in
  let q = gen_prime c b2 in
  if Z.equal p q then () else begin
    let n = Z.mul p q in
    let p1 = Z.pred p and q1 = Z.pred q in
    let phi = if bool c then Z.mul p1 q1 else Z.lcm p1 q1 in
    let rec find_e e = if Z.equal (Z.gcd e phi) Z.one then e else find_e (Z.add e (Z.of_int 2)) in
    let e = find_e (match draw c 2 with 0 -> Z.of_int 3 | 1 -> Z.of_int 65537 | _ -> Z.logor Z.one (below c n)) in
    let d = Z.invert e phi in
    let size = Z.numbits n in
    let priv = { C.RSA.size; n = be_gen c n; d = be_gen c d; p = be_gen c p; q = be_gen c q;
      dp = be_gen c (Z.erem d p1); dq = be_gen c (Z.erem d q1); qinv = be_gen c (Z.invert q p) } in
    let pub = { C.RSA.size; n = be_gen c n; e = be_gen c e } in
    note c "key" (sp "p=%s q=%s e=%s" (Z.to_string p) (Z.to_string q) (Z.to_string e));
    label c (if Z.lt p q then "p<q" else "p>q");
    if Z.lt e n && Z.gt d Z.one then begin
      for _ = 1 to 3 do rsa_ops c priv pub n e d p q done;
      nontrivial c
    end
  end

(* ============================ C12 ============================ *)
let c12 maxb c =
  let bits = key_bits c maxb in
  let rng = new src_rng c in
  note c "new_key" (sp "bits=%d" bits);
  let (priv, pub) = C.Paillier.new_key ~rng:(rng :> C.Random.rng) bits in
  let n = zbe priv.C.Paillier.n and p = zbe priv.C.Paillier.p and q = zbe priv.C.Paillier.q in
  check_int "private size" bits priv.C.Paillier.size; check_int "public size" bits pub.C.Paillier.size;
  check "p is prime" (prime p); check "q is prime" (prime q); check "p <> q" (not (Z.equal p q));
  check "n = p * q" (Z.equal n (Z.mul p q));
  check_int "number of bits of the modulus" bits (Z.numbits n);
  check "public n" (Z.equal n (zbe pub.C.Paillier.n));
  check "n2 = n * n" (Z.equal (Z.mul n n) (zbe priv.C.Paillier.n2)); check "public n2" (Z.equal (Z.mul n n) (zbe pub.C.Paillier.n2));
  let lambda = zbe priv.C.Paillier.lambda and mu = zbe priv.C.Paillier.mu in
  check "lambda = lcm(p-1, q-1)" (Z.equal lambda (Z.lcm (Z.pred p) (Z.pred q)));
  check "mu = 1 / lambda mod n" (Z.equal (Z.erem (Z.mul mu lambda) n) Z.one && Z.lt mu n);
  let enc m =
    let r =
      if chance c 1 3 then begin
        (* blinding factors that are not invertible, or out of range *)
        let mult p = Z.mul p (Z.succ (below c (Z.max Z.one (Z.div (Z.shift_left Z.one (bits - 1)) p)))) in
        let zs = List.init (range c 1 4) (fun _ -> match draw c 4 with
          | 0 -> Z.zero | 1 -> p | 2 -> q | 3 -> mult p | _ -> mult q) in
        (new planted_rng c zs :> C.Random.rng)
      end else (new src_rng c :> C.Random.rng) in
    let ct = C.Paillier.encrypt ~rng:r pub (be_gen c m) in
    let z = zbe ct in
    check "ciphertext in range" (Z.gt z Z.zero && Z.lt z (Z.mul n n));
    let dm = C.Paillier.decrypt priv ct in
    check (sp "decrypt (encrypt %s) = %s" (Z.to_string m) (Z.to_string (zbe dm))) (Z.equal (zbe dm) m);
    ct in
  let k = range c 1 5 in
  let sum = ref Z.zero and acc = ref None in
  for _ = 1 to k do
    let m = below c n in
    let ct = enc m in
    note c "msg" (Z.to_string m);
    sum := Z.erem (Z.add !sum m) n;
    acc := Some (match !acc with None -> ct | Some a -> if bool c then C.Paillier.add pub a ct else C.Paillier.add pub ct a)
  done;
  (match !acc with Some a ->
    let r = zbe (C.Paillier.decrypt priv a) in
    check (sp "decrypt of the sum: %s, expected %s" (Z.to_string r) (Z.to_string !sum)) (Z.equal r !sum)
   | None -> ());
  nontrivial c

(* ============================ C13 ============================ *)
let dh_party c params = C.DH.private_secret ~rng:(new src_rng c :> C.Random.rng) params
let c13_agree (params : C.DH.parameters) c =
  let p = zbe params.C.DH.p and g = zbe params.C.DH.g in
  let len = String.length params.C.DH.p in
  let a = dh_party c params and b = dh_party c params in
  let ma = C.DH.message params a and mb = C.DH.message params b in
  check_int "length of message" len (String.length ma);
  check "message < p" (Z.lt (zbe ma) p);
  check_eq "message is a function of the secret" ma (C.DH.message params a);
  (* the words of the representation of a secret of several words *)
  let words x =
    let o = Obj.repr x in
    if Obj.is_block o && Obj.tag o = Obj.custom_tag then Array.init (Obj.size o - 1) (fun i -> Obj.raw_field o (i + 1)) else [||] in
  let wa = words a and wb = words b in
  let sa = C.DH.shared_secret params a mb and sb = C.DH.shared_secret params b ma in
  if params.C.DH.privlen >= 64 then
    List.iter (fun (before, after) ->
      Array.iteri (fun i w ->
        (* words below 2^32 may be lengths, and may be zero by themselves *)
        if Nativeint.unsigned_compare w 0xFFFFFFFFn > 0 && i < Array.length after && after.(i) = w && w <> Nativeint.min_int then
          failf "word %d of the private secret survives shared_secret" i) before)
      [ (wa, words a); (wb, words b) ];
  check_eq "shared secrets of the two parties" sa sb;
  check_int "length of shared secret" len (String.length sa);
  (* exact values for short secrets: search the exponents *)
  if params.C.DH.privlen <= 10 then begin
    let k = params.C.DH.privlen in
    let find m =
      let rec go x v = if x >= 1 lsl k then None else if Z.equal v (zbe m) then Some x else go (x + 1) (Z.erem (Z.mul v g) p) in
      go (1 lsl (k - 1)) (Refs.powmod g (Z.of_int (1 lsl (k - 1))) p) in
    match find ma, find mb with
    | Some x, Some y ->
      check_eq "shared secret = g^(ab) mod p" (Refs.z_to_be len (Refs.powmod (zbe mb) (Z.of_int x) p)) sa;
      ignore y
    | _ -> failf "message is not g^x mod p for any x of exactly %d bits" k
  end;
  if params.C.DH.privlen >= 64 then begin
    (* the secret has been destroyed *)
    match C.DH.message params a with
    | m -> check "private secret survives shared_secret" (not (String.equal m ma) || Z.equal (zbe ma) Z.one || Z.equal (zbe ma) Z.zero)
    | exception _ -> ()
  end
let c13_gen maxb c =
  let bits = match weighted c [ (2, `S); (2, `A) ] with `S -> 32 + strat c 100 | `A -> range c 32 maxb in
  let privlen = match weighted c [ (2, `Tiny); (3, `Any); (1, `Def); (1, `Max) ] with
    | `Tiny -> Some (range c 1 10) | `Any -> Some (range c 1 (bits - 1)) | `Max -> Some (bits - 1)
    | `Def -> if bits > 160 then None else Some (bits / 2) in
  note c "new_parameters" (sp "bits=%d privlen=%s" bits (match privlen with None -> "-" | Some x -> string_of_int x));
  let params = C.DH.new_parameters ~rng:(new src_rng c :> C.Random.rng) ?privlen bits in
  let p = zbe params.C.DH.p and g = zbe params.C.DH.g in
  check "p is prime" (prime p); check_int "number of bits of p" bits (Z.numbits p);
  check "1 < g < p" (Z.gt g Z.one && Z.lt g p);
  check_int "privlen" (match privlen with None -> 160 | Some x -> x) params.C.DH.privlen;
  c13_agree params c;
  nontrivial c
let c13_ext c =
  let bits = range c 5 300 in
  let p = gen_prime c bits in
  let g = Z.add Z.one (below c (Z.pred p)) in
  let privlen = match weighted c [ (2, `Tiny); (3, `Any) ] with `Tiny -> range c 1 10 | `Any -> range c 1 bits in
  let params = { C.DH.p = be_gen c p; g = be_gen c g; privlen } in
  note c "params" (sp "p=%s g=%s privlen=%d" (Z.to_string p) (Z.to_string g) privlen);
  c13_agree params c;
  nontrivial c
let c13_derive c =
  let s = bytes_n c (length ~dense:70 ~block:32 ~max:300 c) in
  let dv = opt c 1 2 (fun () -> bytes_n c (range c 0 40)) in
  let n = length ~dense:400 ~block:32 ~max:(if c.tier = Quick then 1000 else 5000) c in
  noteb c "secret" s; notei c "numbytes" n;
  let b = Buffer.create n in
  let i = ref 1 in
  while Buffer.length b < n do
    Buffer.add_string b (Refs.sha256 ((match dv with None -> "" | Some d -> d) ^ s ^ string_of_int !i)); incr i
  done;
  check_eq "derive_key" (Buffer.sub b 0 n) (C.DH.derive_key ?diversification:dv s n);
  if n > 0 then nontrivial c

(* ============================ C14 ============================ *)
let num_str c maxlen =
  let l = match weighted c [ (3, `S); (2, `R); (1, `W) ] with `S -> strat c 41 | `R -> range c 0 maxlen | `W -> 8 * range c 0 (maxlen / 8) in
  bytes_n c l
let rec modulus c maxlen =
  let s = num_str c maxlen in
  if Z.equal (zbe s) Z.zero then (if chance c 1 2 then "\001" else modulus_nz c maxlen) else s
and modulus_nz c maxlen = let s = expand (draw c 0xFFFFFF) (range c 1 maxlen) in if Z.equal (zbe s) Z.zero then "\002" else s
let c14_mult c =
  let m = modulus c 80 in
  let a = num_str c 100 and b = num_str c 100 in
  noteb c "a" a; noteb c "b" b; noteb c "c" m;
  check_eq "mod_mult" (Refs.z_to_be (String.length m) (Z.erem (Z.mul (zbe a) (zbe b)) (zbe m))) (C.mod_mult a b m);
  nontrivial c
let c14_power c =
  let m = modulus c 60 in
  let mz = zbe m in
  let a = be_gen c (below c mz) in
  let b = match weighted c [ (1, `Z); (1, `Zs); (4, `Any); (2, `Small) ] with
    | `Z -> "" | `Zs -> String.make (range c 1 9) '\000' | `Any -> num_str c 40 | `Small -> String.make 1 (Char.chr (draw c 255)) in
  noteb c "a" a; noteb c "b" b; noteb c "c" m;
  label c (if Z.is_even mz then "even modulus" else "odd modulus");
  check_eq "mod_power" (Refs.z_to_be (String.length m) (Refs.powmod (zbe a) (zbe b) mz)) (C.mod_power a b m);
  nontrivial c

(* ============================ C15 / C16 ============================ *)
let c15_encode c =
  let k = strat c 3 in
  let n = length ~dense:230 ~block:54 ~max:2000 c in
  let m = bytes_n c n in
  let mk () = match k with 0 -> C.Base64.encode_compact () | 1 -> C.Base64.encode_compact_pad () | _ -> C.Base64.encode_multiline () in
  note c "encoder" [| "compact"; "compact_pad"; "multiline" |].(k); noteb c "msg" m;
  let e = feed_transform ~block:3 c (mk ()) m in
  (match k with
   | 0 -> check_eq "encode_compact" (Refs.base64 ~pad:false m) e
   | 1 -> check_eq "encode_compact_pad" (Refs.base64 ~pad:true m) e
   | _ ->
     let lines = String.split_on_char '\n' e in
     List.iter (fun l -> if String.length l > 76 then failf "line of %d characters" (String.length l)) lines;
     if List.exists (fun l -> l = "") (match List.rev lines with "" :: r -> r | r -> r) && n > 0 then failf "empty line";
     check_eq "encode_multiline" (Refs.base64 ~pad:true m) (strip_nl e));
  check_eq "decode (encode m)" m (C.transform_string (C.Base64.decode ()) e);
  let e' = sprinkle c e in
  check_eq "decode with blanks" m (feed_transform ~block:4 c (C.Base64.decode ()) e');
  if n > 0 then nontrivial c
let run_tr c mk s = match feed_transform ~block:4 c (mk ()) s with r -> Ok r | exception C.Error e -> Error e
let c15_decode c =
  (* strings over an alphabet close to base 64 *)
  let n = range c 0 60 in
  let bad = ref (chance c 1 2) in
  let good = Refs.base64 ~pad:(bool c) (bytes_n c n) in
  let s = match weighted c [ (3, `Soup); (3, `Edit) ] with
    | `Soup -> String.init (range c 0 40) (fun _ ->
        match weighted c [ (30, `B); (4, `W); (1, `Eq); ((if !bad then 2 else 0), `X) ] with
        | `B -> Refs.b64_alpha.[draw c 63] | `W -> pick c blanks | `Eq -> '=' | `X -> Char.chr (draw c 255))
    | `Edit ->
      let b = Buffer.create 80 in
      let at = range c 0 (String.length good) in
      Buffer.add_string b (String.sub good 0 at);
      (match draw c 3 with 0 -> Buffer.add_char b (Char.chr (draw c 255)) | 1 -> Buffer.add_char b '=' | 2 -> Buffer.add_char b Refs.b64_alpha.[draw c 63]
       | _ -> ());
      Buffer.add_string b (String.sub good at (String.length good - at));
      Buffer.contents b in
  note c "encoded" (String.escaped s);
  (* reference verdict *)
  let digits = ref 0 and seen_eq = ref false and invalid = ref false in
  String.iter (fun ch ->
    if ch = '=' then seen_eq := true
    else if Array.mem ch blanks then ()
    else if String.contains Refs.b64_alpha ch then (if !seen_eq then invalid := true; incr digits)
    else invalid := true) s;
  let inv = !invalid || !digits land 3 = 1 in
  (match run_tr c C.Base64.decode s, inv with
   | Ok r, false -> check_eq "decoded" (b64_decode_ref s) r
   | Ok _, true -> failf "invalid base 64 data accepted: %s" (String.escaped s)
   | Error C.Bad_encoding, true -> ()
   | Error e, _ -> failf "decode raises %s on %s" (err_name e) (String.escaped s));
  label c (if inv then "invalid" else "valid");
  nontrivial c
(* every character in every position modulo 4 *)
let c15_chars c =
  let ch = Char.chr (strat c 256) in
  let pre = range c 0 7 in
  let s = String.init pre (fun i -> Refs.b64_alpha.[(i * 11 + 5) land 63]) ^ String.make 1 ch ^ (if bool c then "AAA" else "") in
  note c "encoded" (String.escaped s);
  let ok_ch = ch = '=' || Array.mem ch blanks || String.contains Refs.b64_alpha ch in
  if not ok_ch then
    expect_error (sp "character %C" ch) C.Bad_encoding (fun () -> C.transform_string (C.Base64.decode ()) s);
  nontrivial c

let c16_encode c =
  let n = length ~dense:260 ~block:128 ~max:1500 c in
  let m = bytes_n c n in
  noteb c "msg" m;
  let e = feed_transform ~block:16 c (C.Hexa.encode ()) m in
  check_eq "Hexa.encode" (Refs.hex m) e;
  let e' = String.mapi (fun i ch -> if (i * 5 + n) land 3 < 2 then Char.uppercase_ascii ch else ch) e in
  let e' = if bool c then sprinkle c e' else e' in
  check_eq "Hexa.decode" m (feed_transform ~block:4 c (C.Hexa.decode ()) e');
  if n > 0 then nontrivial c
let hexd = "0123456789abcdefABCDEF"
let c16_decode c =
  let bad = chance c 1 2 in
  let s = String.init (range c 0 40) (fun _ ->
    match weighted c [ (30, `D); (5, `W); ((if bad then 1 else 0), `X) ] with
    | `D -> hexd.[draw c 21] | `W -> pick c blanks | `X -> Char.chr (draw c 255)) in
  note c "encoded" (String.escaped s);
  let digits = ref 0 and invalid = ref false in
  String.iter (fun ch -> if Array.mem ch blanks then () else if String.contains hexd ch then incr digits else invalid := true) s;
  let inv = !invalid || !digits land 1 = 1 in
  (match run_tr c C.Hexa.decode s, inv with
   | Ok r, false -> check_eq "decoded" (hex_decode_ref s) r
   | Ok _, true -> failf "invalid hexadecimal data accepted: %s" (String.escaped s)
   | Error C.Bad_encoding, true -> ()
   | Error e, _ -> failf "decode raises %s on %s" (err_name e) (String.escaped s));
  label c (if inv then "invalid" else "valid");
  nontrivial c
let c16_chars c =
  let ch = Char.chr (strat c 256) in
  let pre = range c 0 3 in
  let s = String.make pre 'a' ^ String.make 1 ch ^ (if (pre + 1) land 1 = 1 then "0" else "") in
  note c "encoded" (String.escaped s);
  if Array.mem ch blanks then ()
  else if String.contains hexd ch then check_eq "digit" (hex_decode_ref s) (C.transform_string (C.Hexa.decode ()) s)
  else expect_error (sp "character %C" ch) C.Bad_encoding (fun () -> C.transform_string (C.Hexa.decode ()) s);
  nontrivial c

(* ============================ C17 ============================ *)
(* one piece of more than 4 gigabytes, mostly zeros *)
let c17_huge c =
  let n = (1 lsl 32) + range c 1 5000 in
  let edge = 4096 in
  let head = bytes_n c edge and tail = bytes_n c edge in
  note c "piece" (string_of_int n);
  let b = Hs.sparse_alloc n in
  Bytes.blit_string head 0 b 0 edge; Bytes.blit_string tail 0 b (n - edge) edge;
  let z = C.Zlib.compress ~level:1 () in
  z#put_substring b 0 n; z#finish;
  let s = z#get_string in
  z#wipe;
  Hs.sparse_free b;
  let u = C.Zlib.uncompress () in
  let total = ref 0 and last = ref "" and first = ref "" in
  let zeros = String.make 65536 '\000' in
  let take () =
    let o = u#get_string in
    let l = String.length o in
    (* everything between the two edges must be zero *)
    if !total < edge then first := !first ^ String.sub o 0 (min l (edge - !total))
    ;
    let lo = max 0 (edge - !total) and hi = min l (n - edge - !total) in
    let i = ref lo in
    while !i < hi do
      let k = min 65536 (hi - !i) in
      if (if k = 65536 then String.sub o !i k <> zeros else String.sub o !i k <> String.make k '\000') then failf "data changed near offset %d" (!total + !i);
      i := !i + k
    done;
    total := !total + l;
    last := (let t = !last ^ o in let m = String.length t in if m > edge then String.sub t (m - edge) edge else t) in
  let pos = ref 0 in
  while !pos < String.length s do
    let k = min 4096 (String.length s - !pos) in
    u#put_substring (Bytes.unsafe_of_string s) !pos k; pos := !pos + k; take ()
  done;
  u#finish; take ();
  check_int "length after decompression" n !total;
  check_eq "first bytes" head !first;
  check_eq "last bytes" tail !last;
  nontrivial c

let compressible c n =
  match weighted c [ (2, `Text); (2, `Rand); (2, `Runs); (2, `Rep) ] with
  | `Text -> let b = Buffer.create n in
    let s = ref (draw c 0xFFFFFF) in
    while Buffer.length b < n do s := mix (!s + 1) land max_int; Buffer.add_string b text_words.(!s land 7) done;
    Buffer.sub b 0 n
  | `Rand -> bytes_n c n
  | `Runs -> let b = Buffer.create n in
    let s = ref (draw c 0xFFFFFF) in
    while Buffer.length b < n do s := mix (!s + 1) land max_int; Buffer.add_string b (String.make (1 + (!s lsr 8) mod 700) (Char.chr (!s land 255))) done;
    Buffer.sub b 0 n
  | `Rep -> let p = expand (draw c 0xFFFFFF) (range c 1 300) in
    String.init n (fun i -> p.[i mod String.length p])

let zlib_roundtrip maxlen c =
  let zlib = bool c in
  let level = match weighted c [ (2, `D); (6, `L) ] with `D -> None | `L -> Some (range c 0 9) in
  let n = length ~dense:60 ~block:256 ~max:maxlen c in
  let m = compressible c n in
  note c "zlib" (sp "level=%s header=%b" (match level with None -> "-" | Some l -> string_of_int l) zlib); noteb c "msg" m;
  let t = if zlib || bool c then C.Zlib.compress ?level ~write_zlib_header:zlib () else C.Zlib.compress ?level () in
  let out = Buffer.create 100 and fed = ref 0 and flushes = ref 0 in
  let f = feeder_t t in
  let flush () =
    incr flushes;
    t#flush;
    let so_far = Buffer.contents out ^ (if bool c then "" else "") in
    let pend = t#get_string in
    Buffer.add_string out pend;
    ignore so_far;
    let d = (try Defl.inflate_prefix ~zlib (Buffer.contents out) with Defl.Invalid e -> failf "malformed output after flush: %s" e) in
    check_eq (sp "data recoverable after flush at %d" !fed) (String.sub m 0 !fed) d in
  let flushy = range c 0 2 in
  List.iter (fun k ->
    feed_piece c f (String.sub m !fed k); fed := !fed + k;
    if chance c 1 4 then (let av = t#available_output in let s = t#get_string in check_int "available_output" av (String.length s); Buffer.add_string out s);
    if flushy > 0 && chance c 1 4 then begin
      flush (); if flushy = 2 && bool c then flush ()
    end) (chunks ~block:256 c n);
  t#finish;
  Buffer.add_string out t#get_string;
  let z = Buffer.contents out in
  (match Defl.inflate ~zlib z with
   | Defl.Valid r -> check_eq "reference decompression" m r
   | Defl.Bad e -> failf "malformed compressed stream: %s" e
   | Defl.Short _ -> failf "truncated compressed stream");
  let u = C.Zlib.uncompress ~expect_zlib_header:zlib () in
  check_eq "uncompress (compress m)" m (feed_transform ~block:64 c u z);
  t#wipe; u#wipe;
  if n > 0 then nontrivial c

let c17_streams c =
  let zlib = bool c in
  let (z, o) = Defl.gen_stream c ~zlib ~size:(range c 1 400) in
  note c "stream" (sp "zlib=%b %s" zlib (show z)); noteb c "output" o;
  (match Defl.inflate ~zlib z with Defl.Valid r when r = o -> () | _ -> failf "harness: generated stream");
  let u = C.Zlib.uncompress ~expect_zlib_header:zlib () in
  check_eq "uncompress of a valid stream" o (feed_transform ~block:16 c u z);
  if String.length o > 0 then nontrivial c

let unz zlib c z = 
  match feed_transform ~block:16 c (C.Zlib.uncompress ~expect_zlib_header:zlib ()) z with
  | r -> `Ok r
  | exception C.Error (C.Compression_error _) -> `Cerr
  | exception e -> failf "uncompress raises %s" (exn_name e)

(* mutations of valid streams, judged by the reference decoder *)
let rec c17_mutate c =
  let zlib = bool c in
  let z =
    if bool c then fst (Defl.gen_stream c ~zlib ~size:(range c 1 60))
    else C.transform_string (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zlib ()) (compressible c (range c 0 600)) in
  let z = match weighted c [ (5, `Mut); (3, `Cut); (2, `Ext); (1, `Rand) ] with
    | `Mut -> let b = Bytes.of_string z in
      for _ = 1 to range c 1 2 do
        let i = draw c (Bytes.length b - 1) in
        Bytes.set b i (Char.chr (Char.code (Bytes.get b i) lxor (1 lsl draw c 7)))
      done; Bytes.to_string b
    | `Cut -> String.sub z 0 (if bool c then draw c (String.length z - 1) else max 0 (String.length z - range c 1 5))
    | `Ext -> z ^ bytes_n c (range c 1 20)
    | `Rand -> bytes_n c (range c 0 40) in
  c17_judge c zlib z

(* well-formed data in another container than the one announced *)
and c17_container c =
  let zlib = bool c in
  let size = range c 0 60 in
  let z = match weighted c [ (3, `Gzip); (2, `Other); (1, `Dict) ] with
    | `Gzip -> label c "gzip"; Defl.gen_gzip c ~size
    | `Other -> label c "zlib or raw"; fst (Defl.gen_stream c ~zlib:(not zlib) ~size)
    | `Dict ->
      (* a zlib header that asks for a preset dictionary *)
      label c "dictionary";
      let (z, _) = Defl.gen_stream c ~zlib:true ~size in
      let cmf = Char.code z.[0] in
      let f0 = (draw c 3 lsl 6) lor 32 in
      let f = f0 + (31 - (cmf * 256 + f0) mod 31) mod 31 in
      String.make 1 z.[0] ^ String.make 1 (Char.chr f) ^ bytes_n c 4 ^ String.sub z 2 (String.length z - 2) in
  c17_judge c zlib z

and c17_judge c zlib z =
  note c "stream" (sp "zlib=%b %s" zlib (show z));
  (match Defl.inflate ~zlib z, unz zlib c z with
   | Defl.Valid o, `Ok r -> label c "valid"; check_eq "uncompress" o r
   | Defl.Valid _, `Cerr -> failf "valid stream rejected"
   | Defl.Bad e, `Cerr -> label c ("bad: " ^ e)
   | Defl.Bad e, `Ok _ -> failf "malformed stream accepted (%s)" e
   | Defl.Short _, `Cerr -> label c "truncated"
   | Defl.Short _, `Ok _ -> failf "truncated stream accepted");
  nontrivial c
(* large expansion ratio *)
let c17_expand c =
  let zlib = bool c in
  let n = range c 10_000 (if c.tier = Quick then 400_000 else 3_000_000) in
  let m = match draw c 2 with 0 -> String.make n '\000' | 1 -> let p = expand (draw c 0xFFFF) (range c 1 40) in String.init n (fun i -> p.[i mod String.length p]) | _ -> compressible c n in
  note c "msg" (sp "%d bytes zlib=%b" n zlib);
  let z = C.transform_string (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zlib ()) m in
  let u = C.Zlib.uncompress ~expect_zlib_header:zlib () in
  check_eq "uncompress" m (feed_transform ~block:(range c 1 60) c u z);
  nontrivial c
(* uncompress: flush makes all decodable data available *)
let c17_uflush c =
  let zlib = bool c in
  let t = C.Zlib.compress ~level:(range c 1 9) ~write_zlib_header:zlib () in
  let u = C.Zlib.uncompress ~expect_zlib_header:zlib () in
  let total = Buffer.create 100 and got = Buffer.create 100 in
  let steps = range c 1 5 in
  for _ = 1 to steps do
    let m = compressible c (length ~dense:20 ~block:256 ~max:4000 c) in
    Buffer.add_string total m;
    t#put_string m; t#flush;
    let z = t#get_string in
    let pos = ref 0 in
    List.iter (fun k -> u#put_string (String.sub z !pos k); pos := !pos + k) (chunks ~block:16 c (String.length z));
    u#flush;
    Buffer.add_string got u#get_string;
    check_eq "decompressed data after flush on both sides" (Buffer.contents total) (Buffer.contents got)
  done;
  t#finish; u#put_string t#get_string; u#finish;
  Buffer.add_string got u#get_string;
  check_eq "decompressed data at the end" (Buffer.contents total) (Buffer.contents got);
  note c "steps" (sp "%d, %d bytes" steps (Buffer.length total));
  if Buffer.length total > 0 then nontrivial c

(* uncompress: after any prefix of a valid stream, flush makes everything
   that the prefix determines available *)
let c17_uprefix c =
  let zlib = bool c in
  let z =
    if chance c 1 3 then (let (z, _) = Defl.gen_stream c ~zlib ~size:(range c 0 3000) in z)
    else begin
      let n = match strat c 3 with 0 -> range c 0 3000 | 1 -> range c 3000 60_000 | _ -> range c 200 2000 in
      let m = match draw c 3 with
        | 0 -> String.make n 'a'
        | 1 -> let p = expand (draw c 0xFFFF) (range c 1 40) in String.init n (fun i -> p.[i mod String.length p])
        | _ -> compressible c n in
      C.transform_string (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:zlib ()) m
    end in
  let full = match Defl.inflate ~zlib z with Defl.Valid o -> o | _ -> failf "reference rejects the stream" in
  let u = C.Zlib.uncompress ~expect_zlib_header:zlib () in
  let got = Buffer.create 100 in
  let pos = ref 0 and flushes = ref 0 in
  let lz = String.length z in
  while !pos < lz do
    let k = min (lz - !pos) (match draw c 3 with 0 | 1 -> 1 | 2 -> range c 0 8 | _ -> range c 0 200) in
    feed_piece c (feeder_t u) (String.sub z !pos k);
    pos := !pos + k;
    if chance c 1 2 && !flushes < 40 then begin
      incr flushes;
      u#flush;
      if bool c then begin
        Buffer.add_string got u#get_string;
        let want = match Defl.inflate ~zlib (String.sub z 0 !pos) with
          | Defl.Valid o -> String.length o | Defl.Short o -> String.length o | Defl.Bad _ -> 0 in
        let have = Buffer.length got in
        if have < want then failf "after flush: %d bytes available in total, %d are determined by the %d bytes of input" have want !pos;
        if have > String.length full || String.sub full 0 have <> Buffer.contents got then failf "wrong data after flush"
      end
    end
  done;
  u#finish;
  Buffer.add_string got u#get_string;
  check_eq "decompressed data" full (Buffer.contents got);
  note c "stream" (sp "zlib=%b %s, %d flushes" zlib (show z) !flushes);
  if !flushes > 0 then nontrivial c

(* ============================ C18 ============================ *)
let seed_ref_key seed =
  let l = String.length seed in
  if l >= 32 then String.sub seed 0 32 else if l > 16 then seed ^ String.make (32 - l) '\000' else seed
let aes_ctr_stream key n =
  let e = Refs.Aes.enc key in
  let b = Buffer.create (n + 16) in
  let i = ref 0 in
  while Buffer.length b < n do Buffer.add_string b (e (Refs.z_to_be 16 (Z.of_int !i))); incr i done;
  Buffer.sub b 0 n
let seed_stream ~aes seed n =
  if aes then aes_ctr_stream (String.sub seed 0 16) n
  else Refs.Chacha.stream (seed_ref_key seed) (String.make 8 '\000') 0L n

let c18 total_max c =
  let aes = bool c in
  let sl = 16 + strat c 40 in
  let seed = bytes_n c sl in
  let seed0 = Bytes.to_string (Bytes.of_string seed) in
  let rng = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
  let total = length ~dense:300 ~block:64 ~max:total_max c in
  let exp = if aes then aes_ctr_stream (String.sub seed0 0 16) total
    else Refs.Chacha.stream (seed_ref_key seed0) (String.make 8 '\000') 0L total in
  note c "rng" (sp "%s seed=%s total=%d" (if aes then "aes_ctr" else "chacha") (show seed) total);
  let pos = ref 0 in
  List.iter (fun n ->
    if bool c then begin
      let a = range c 0 20 and z = range c 0 20 in
      let b = Bytes.make (a + n + z) '\x3C' in
      rng#random_bytes b a n;
      check_eq (sp "bytes %d.. of the stream" !pos) (String.make a '\x3C' ^ String.sub exp !pos n ^ String.make z '\x3C') (Bytes.to_string b)
    end else check_eq (sp "bytes %d.. of the stream" !pos) (String.sub exp !pos n) (C.Random.string rng n);
    pos := !pos + n) (chunks ~block:(if aes then 16 else 64) c total);
  check_eq "seed unchanged" seed0 seed;
  if total > 0 then nontrivial c
(* every request length after every position in the keystream block *)
let c18_pairs c =
  let aes = strat c 2 = 0 in
  let seed = bytes_n c (range c 16 48) in
  let p = strat c 66 in
  note c "rng" (sp "%s seed=%s first request %d" (if aes then "aes_ctr" else "chacha") (show seed) p);
  let exp = seed_stream ~aes seed 420 in
  for q = 0 to 270 do
    let rng = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
    let a = q land 7 in
    let b = Bytes.make (a + p + q + 9 + 3) '\x3C' in
    rng#random_bytes b a p; rng#random_bytes b (a + p) q; rng#random_bytes b (a + p + q) 9;
    check_eq (sp "requests of %d, %d and 9 bytes" p q) (String.make a '\x3C' ^ String.sub exp 0 (p + q + 9) ^ "\x3C\x3C\x3C") (Bytes.to_string b)
  done;
  nontrivial c
let c18_short c =
  let l = strat c 16 in
  let seed = bytes_n c l in
  noteb c "seed" seed;
  expect_error "pseudo_rng with a short seed" C.Seed_too_short (fun () -> C.Random.pseudo_rng seed);
  expect_error "pseudo_rng_aes_ctr with a short seed" C.Seed_too_short (fun () -> C.Random.pseudo_rng_aes_ctr seed);
  nontrivial c
(* counter bytes beyond the second: skip far ahead, then compare *)
let c18_deep c =
  let aes = bool c in
  let seed = bytes_n c 32 in
  let rng = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
  let carry = if aes then 16 * (1 lsl 16) * pick c [| 1; 1; 2; 256 |] else 64 * 65536 * range c 1 8 in
  let skip = carry - range c 0 100 in
  let buf = Bytes.create 65536 in
  let left = ref skip in
  while !left > 0 do let n = min !left 65536 in rng#random_bytes buf 0 n; left := !left - n done;
  let n = range c 100 400 in
  let got = C.Random.string rng n in
  note c "rng" (sp "%s position=%d" (if aes then "aes_ctr" else "chacha") skip);
  let exp =
    if aes then begin
      let e = Refs.Aes.enc (String.sub seed 0 16) in
      String.init n (fun i -> let p = skip + i in (e (Refs.z_to_be 16 (Z.of_int (p / 16)))).[p land 15])
    end else
      let s = Refs.Chacha.stream seed (String.make 8 '\000') (Int64.of_int (skip / 64)) (n + 64) in
      String.sub s (skip land 63) n in
  check_eq "stream far from its start" exp got;
  nontrivial c

(* one request of more than 4 gigabytes *)
let c18_hugereq c =
  let aes = strat c 2 = 1 in
  let seed = bytes_n c 32 in
  let rng = if aes then C.Random.pseudo_rng_aes_ctr seed else C.Random.pseudo_rng seed in
  let n = (1 lsl 32) + range c 65 5000 in
  let first = range c 0 70 in
  note c "rng" (sp "%s, requests of %d and %d bytes" (if aes then "aes_ctr" else "chacha") first n);
  let a = C.Random.string rng first in
  let b = Hs.sparse_alloc (n + 8) in
  rng#random_bytes b 4 n;
  heartbeat ();
  let z = C.Random.string rng 100 in
  let at p l =
    if aes then begin
      let e = Refs.Aes.enc (String.sub seed 0 16) in
      String.init l (fun i -> let p = p + i in (e (Refs.z_to_be 16 (Z.of_int (p / 16)))).[p land 15])
    end else String.sub (Refs.Chacha.stream seed (String.make 8 '\000') (Int64.of_int (p / 64)) (l + 64)) (p land 63) l in
  let pts = [ 0; 1 lsl 31 - 50; n - 100; range c 0 (n - 100) ] in
  let got = List.map (fun p -> Bytes.sub_string b (4 + p) 100) pts and edge = Bytes.sub_string b 0 4 ^ Bytes.sub_string b (n + 4) 4 in
  Hs.sparse_free b;
  check_eq "bytes outside the request" (String.make 8 '\000') edge;
  check_eq "first request" (at 0 first) a;
  List.iter2 (fun p g -> check_eq (sp "huge request, position %d" p) (at (first + p) 100) g) pts got;
  check_eq "request after the huge one" (at (first + n) 100) z;
  nontrivial c

(* ============================ C19 ============================ *)
let dev_file = ref ""
let dev_content = lazy (expand 4242 300_000)
let get_dev () =
  if !dev_file = "" then begin
    let f = Filename.temp_file "pbt" ".dev" in
    let oc = open_out_bin f in output_string oc (Lazy.force dev_content); close_out oc;
    dev_file := f;
    let pid = Unix.getpid () in
    at_exit (fun () -> if Unix.getpid () = pid then try Sys.remove f with _ -> ())
  end; !dev_file
let c19_device c =
  let content = Lazy.force dev_content in
  (* a private copy, so that a deterministic prefix is served *)
  let limit = match weighted c [ (3, `Full); (2, `Short) ] with `Full -> String.length content | `Short -> range c 0 3000 in
  let f = Filename.temp_file "pbt" ".dev" in
  let finally () = Hs.read_script false [||]; (try Sys.remove f with _ -> ()) in
  (try
    (if limit = String.length content then (Sys.remove f; Unix.symlink (get_dev ()) f)
     else (let oc = open_out_bin f in output_string oc (String.sub content 0 limit); close_out oc));
    let rng = C.Random.device_rng f in
    let script = Array.init (range c 0 40) (fun _ -> match weighted c [ (6, `S); (2, `M); (1, `One); ((if chance c 1 6 then 1 else 0), `Err); ((if chance c 1 8 then 1 else 0), `Eof) ] with
      | `S -> range c 1 20 | `M -> range c 1 400 | `One -> 1 | `Err -> - (pick c [| 4; 5; 11 |]) | `Eof -> 0) in
    let pos = ref 0 and stop = ref false in
    let reqs = range c 1 6 in
    note c "device" (sp "size=%d script=%s" limit (String.concat "," (List.map string_of_int (Array.to_list script))));
    let k = ref 0 in
    Hs.read_script true script;
    while not !stop && !k < reqs do
      incr k;
      let n = match weighted c [ (4, `S); (2, `M); (1, `L) ] with `S -> range c 0 60 | `M -> range c 0 2000 | `L -> range c 0 150_000 in
      let a = range c 0 9 and z = range c 0 9 in
      let b = Bytes.make (a + n + z) '\x3C' in
      (match rng#random_bytes b a n with
       | () ->
         if !pos + n > limit then failf "request of %d bytes at %d returns normally, the source has %d bytes" n !pos limit;
         check_eq (sp "request of %d bytes at position %d" n !pos)
           (String.make a '\x3C' ^ String.sub content !pos n ^ String.make z '\x3C') (Bytes.to_string b);
         pos := !pos + n
       | exception C.Error C.Entropy_source_closed ->
         stop := true;
         if !pos + n <= limit && not (Array.mem 0 script) then failf "Entropy_source_closed raised although %d bytes remain" (limit - !pos)
       | exception Unix.Unix_error (_, _, _) ->
         stop := true;
         if not (Array.exists (fun x -> x < 0) script) then failf "random_bytes raises a Unix error"
       | exception Fail m -> raise (Fail m)
       | exception e -> failf "random_bytes raises %s" (exn_name e));
      check_eq "bytes outside the range" (String.make a '\x3C' ^ String.make z '\x3C') (Bytes.sub_string b 0 a ^ Bytes.sub_string b (a + n) z)
    done;
    if Hs.read_calls () > 0 then label c "scripted reads"
    else if !pos > 0 then label c "reads not scripted";
    rng#wipe; finally ()
  with e -> finally (); raise e);
  nontrivial c

(* every position varies over repeated requests, nothing else changes *)
let statistical c (rng : C.Random.rng) what n =
  let trials = 14 in
  let a = range c 0 9 and z = range c 0 9 in
  let seen = Array.make_matrix n trials 0 in
  for t = 0 to trials - 1 do
    let fillc = Char.chr ((t * 37) land 255) in
    let b = Bytes.make (a + n + z) fillc in
    rng#random_bytes b a n;
    check_eq (what ^ ": bytes outside the range") (String.make (a + z) fillc) (Bytes.sub_string b 0 a ^ Bytes.sub_string b (a + n) z);
    for i = 0 to n - 1 do seen.(i).(t) <- Char.code (Bytes.get b (a + i)) lxor (if t land 1 = 0 then 0 else 0) done
  done;
  for i = 0 to n - 1 do
    let vals = List.sort_uniq compare (Array.to_list seen.(i)) in
    if List.length vals < 4 then failf "%s: byte %d of %d takes only %d values in %d requests" what i n (List.length vals) trials;
    (* unfilled positions would show the fill pattern *)
    let unfilled = ref 0 in
    Array.iteri (fun t v -> if v = (t * 37) land 255 then incr unfilled) seen.(i);
    if !unfilled >= 6 then failf "%s: byte %d of %d keeps the previous contents of the buffer" what i n
  done;
  (* distinct bytes inside one request, for long ones *)
  if n >= 64 then begin
    for t = 0 to 2 do
      let col = List.sort_uniq compare (List.init n (fun i -> seen.(i).(t))) in
      if List.length col < 8 then failf "%s: %d bytes with only %d values" what n (List.length col)
    done;
    (* no repetition of whole 8-byte groups *)
    let tbl = Hashtbl.create 64 in
    for t = 0 to trials - 1 do
      for g = 0 to n / 8 - 1 do
        let k = List.init 8 (fun j -> seen.(8 * g + j).(t)) in
        if Hashtbl.mem tbl k then failf "%s: the same 8 bytes occur twice" what;
        Hashtbl.add tbl k ()
      done
    done
  end

let rng_len c = match weighted c [ (5, `S); (2, `B); (1, `L) ] with `S -> strat c 80 | `B -> max 0 (256 * range c 1 4 + range c 0 4 - 2) | `L -> range c 0 3000
let c19_system c =
  let n = rng_len c in
  let secure = bool c in
  note c "system_rng" (sp "len=%d secure_rng=%b" n secure);
  let rng = if secure then C.Random.secure_rng else C.Random.system_rng () in
  (* scripted source *)
  let fail_at = if chance c 1 4 then range c 0 6 else -1 in
  let seed = draw c 0xFFFFFF in
  Hs.ent_script true seed fail_at;
  let a = range c 0 9 and z = range c 0 9 in
  let b = Bytes.make (a + n + z) '\x3C' in
  let r = (match rng#random_bytes b a n with () -> `Ok | exception C.Error C.Entropy_source_closed -> `Closed | exception e -> Hs.ent_script false 0 (-1); raise e) in
  let calls = Hs.ent_calls () and used = Hs.ent_used () in
  let src = String.init used (fun i -> Char.chr (Hs.ent_byte i)) in
  Hs.ent_script false 0 (-1);
  check_eq "bytes outside the range" (String.make (a + z) '\x3C') (Bytes.sub_string b 0 a ^ Bytes.sub_string b (a + n) z);
  if calls > 0 then begin
    label c "scripted getentropy";
    (match r with
     | `Ok ->
       if fail_at >= 0 && calls > fail_at then failf "getentropy failed, but random_bytes returned";
       if used < n then failf "request of %d bytes satisfied with %d bytes of entropy" n used;
       if used = n then check_eq "bytes from the source" src (Bytes.sub_string b a n)
     | `Closed -> if fail_at < 0 then failf "Entropy_source_closed raised without failure of the source")
  end;
  if n <= 600 then statistical c rng (if secure then "secure_rng" else "system_rng") n;
  if not secure then rng#wipe;
  if n > 0 then nontrivial c
let c19_hardware c =
  match C.Random.hardware_rng () with
  | exception C.Error C.No_entropy_source -> label c "no hardware rng"
  | rng ->
    let n = match weighted c [ (5, `S); (1, `M) ] with `S -> strat c 80 | `M -> range c 0 600 in
    notei c "hardware_rng" n;
    statistical c rng "hardware_rng" n;
    if n > 0 then nontrivial c
(* RDRAND replaced, while single-stepping, by a script of successes and failures *)
let c19_rdrand c =
  match C.Random.hardware_rng () with
  | exception C.Error C.No_entropy_source -> label c "no hardware rng"
  | rng ->
    let n = match weighted c [ (5, `S); (1, `M) ] with `S -> strat c 64 | `M -> range c 0 200 in
    let a = range c 0 9 and z = range c 0 9 in
    let calls = range c 0 40 in
    let script = Array.concat (List.init calls (fun _ -> match weighted c [ (6, `Ok); (2, `Fail); (1, `Run) ] with
      | `Ok -> [| 1 |] | `Fail -> [| 0 |] | `Run -> Array.make (range c 2 60) 0)) in
    let tail = if chance c 3 4 then 1 else 0 in
    note c "hardware_rng" (sp "request=%d script=%s then %s" n (String.concat "" (List.map string_of_int (Array.to_list script))) (if tail = 1 then "successes" else "failures"));
    let b = Bytes.make (a + n + z) '\x00' in
    let res = ref `None in
    let (ncalls, nok) = Hs.rdrand (fun () ->
      match rng#random_bytes b a n with
      | () -> res := `Ok
      | exception C.Error C.Entropy_source_closed -> res := `Closed) script tail 0 (-1) in
    if ncalls < 0 then failf "random_bytes does not end when the instruction fails";
    check_eq "bytes outside the range" (String.make (a + z) '\x00') (Bytes.sub_string b 0 a ^ Bytes.sub_string b (a + n) z);
    (match !res with
     | `Ok ->
       (* every byte comes from a successful draw, none is used twice *)
       let avail = Array.make 256 0 in
       for i = 0 to 8 * nok - 1 do let v = 1 + i mod 255 in avail.(v) <- avail.(v) + 1 done;
       for i = 0 to n - 1 do
         let v = Char.code (Bytes.get b (a + i)) in
         if avail.(v) = 0 then failf "byte %d of the request of %d does not come from a successful draw (%d draws, %d successful)" i n ncalls nok;
         avail.(v) <- avail.(v) - 1
       done
     | `Closed -> if nok = ncalls then failf "Entropy_source_closed raised although no draw failed"
     | `None -> failf "random_bytes raised another exception");
    label c (match !res with `Ok -> "filled" | _ -> "closed");
    if n > 0 && ncalls > 0 then nontrivial c
(* processors without RDRAND, or whose RDRAND is broken *)
let c19_rdrand_avail c =
  let what = strat c 4 in
  let script = [||] in
  let res = ref "" in
  let mk () = match C.Random.hardware_rng () with
    | _ -> res := "returned a generator"
    | exception C.Error C.No_entropy_source -> res := "No_entropy_source" in
  let (tail, mode, cpuid, desc, expected) = match what with
    | 0 -> (1, 0, 0, "processor without RDRAND", "No_entropy_source")
    | 1 -> (0, 0, 1, "RDRAND always fails", "No_entropy_source")
    | 2 -> (1, 1, 1, "RDRAND returns only ones", "No_entropy_source")
    | _ -> (1, 0, 1, "working RDRAND", "returned a generator") in
  note c "hardware_rng" desc;
  let (_, _) = Hs.rdrand mk script tail mode cpuid in
  check_eq desc expected !res;
  nontrivial c

(* requests of more than 4 gigabytes: entropy in every part of the range *)
let c19_huge c =
  let n = (1 lsl 32) + range c 1 3000 in
  let src = strat c 2 in
  note c "huge" (sp "%s request of %d" (if src = 0 then "system_rng" else "device_rng") n);
  let b = Hs.sparse_alloc (n + 16) in
  let ok =
    if src = 0 then begin
      Hs.ent_script true 77 (-2);
      (match (C.Random.system_rng ())#random_bytes b 8 n with
       | () -> Hs.ent_script false 0 (-1); true
       | exception e -> Hs.ent_script false 0 (-1); Hs.sparse_free b; raise e)
    end else ((C.Random.device_rng "/dev/urandom")#random_bytes b 8 n; true) in
  heartbeat ();
  let window p = Bytes.sub_string b (8 + p) 64 in
  let pts = [ 0; 1000; (1 lsl 31) - 32; (1 lsl 31) + 5000; n - 64; n - 2000; range c 0 (n - 64); range c 0 (n - 64) ] in
  let ws = List.map (fun p -> (p, window p)) pts in
  let edge = Bytes.sub_string b 0 8 ^ Bytes.sub_string b (8 + n) 8 in
  Hs.sparse_free b;
  check_eq "bytes outside the range" (String.make 16 '\000') edge;
  check "request satisfied" ok;
  List.iter (fun (p, w) -> if w = String.make 64 '\000' then failf "64 bytes at position %d of the request were not filled" p) ws;
  nontrivial c

(* a real device file, read in one long history *)
let c19_urandom c =
  let rng = C.Random.device_rng "/dev/urandom" in
  let n = range c 0 200 in
  notei c "device_rng /dev/urandom" n;
  statistical c rng "device_rng" n;
  rng#wipe;
  if n > 0 then nontrivial c

let register () =
  sub "C11" "generated" 3000 (c11_gen 200);
  sub "C11" "generated_large" 24 ~cpu_limit:200. (c11_gen 1024);
  sub "C11" "external" 4000 (c11_ext 200);
  sub "C12" "paillier" 3000 (c12 160);
  sub "C12" "paillier_large" 16 ~cpu_limit:200. (c12 800);
  sub "C13" "generated" 3000 (c13_gen 200);
  sub "C13" "generated_large" 24 ~cpu_limit:200. (c13_gen 700);
  sub "C13" "external" 3000 c13_ext;
  sub "C13" "derive" 3000 c13_derive;
  sub "C14" "mod_mult" 10000 c14_mult;
  sub "C14" "mod_power" 10000 c14_power;
  sub "C15" "encode" 6000 c15_encode;
  sub "C15" "decode" 10000 c15_decode;
  sub "C15" "chars" 2048 ~thorough:10000 c15_chars;
  sub "C16" "encode" 6000 c16_encode;
  sub "C16" "decode" 10000 c16_decode;
  sub "C16" "chars" 1024 ~thorough:4096 c16_chars;
  sub "C17" "roundtrip" 3000 (zlib_roundtrip 5000);
  sub "C17" "roundtrip_large" 60 (zlib_roundtrip 200_000);
  sub "C17" "huge" 1 ~thorough:4 ~cpu_limit:900. ~only:[ "hw" ] c17_huge;
  sub "C17" "streams" 4000 c17_streams;
  sub "C17" "mutate" 8000 c17_mutate;
  sub "C17" "container" 2500 c17_container;
  sub "C17" "expand" 120 c17_expand;
  sub "C17" "uflush" 2000 c17_uflush;
  sub "C17" "uprefix" 3000 c17_uprefix;
  sub "C18" "pairs" (2 * 66) c18_pairs;
  sub "C18" "hugereq" 2 ~thorough:4 ~cpu_limit:600. ~only:[ "hw" ] c18_hugereq;
  sub "C18" "stream" 5000 (c18 4000);
  sub "C18" "long" 40 (c18 300_000);
  sub "C18" "deep" 24 ~cpu_limit:300. c18_deep;
  sub "C18" "short_seed" 64 ~thorough:256 c18_short;
  sub "C19" "device" 4000 c19_device;
  sub "C19" "system" 2000 c19_system;
  sub "C19" "hardware" 800 c19_hardware;
  sub "C19" "urandom" 100 c19_urandom;
  sub "C19" "rdrand" 600 c19_rdrand;
  sub "C19" "rdrand_avail" 8 ~thorough:40 c19_rdrand_avail;
  sub "C19" "huge" 2 ~thorough:4 ~cpu_limit:600. c19_huge
