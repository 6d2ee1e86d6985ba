(* C01 .. C10: symmetric primitives and streaming behaviour *)
open Pbt
open Objs
module C = Cryptokit

let err_name = function
  | C.Wrong_key_size -> "Wrong_key_size" | C.Wrong_IV_size -> "Wrong_IV_size" | C.Wrong_data_length -> "Wrong_data_length"
  | C.Bad_padding -> "Bad_padding" | C.Output_buffer_overflow -> "Output_buffer_overflow"
  | C.Incompatible_block_size -> "Incompatible_block_size" | C.Number_too_long -> "Number_too_long"
  | C.Seed_too_short -> "Seed_too_short" | C.Message_too_long -> "Message_too_long" | C.Bad_encoding -> "Bad_encoding"
  | C.Compression_error (a, b) -> sp "Compression_error(%s,%s)" a b | C.No_entropy_source -> "No_entropy_source"
  | C.Entropy_source_closed -> "Entropy_source_closed" | C.Compression_not_supported -> "Compression_not_supported"
let exn_name = function
  | C.Error e -> "Error " ^ err_name e
  | e -> Printexc.to_string e

let expect_error what err f =
  match f () with
  | _ -> failf "%s: expected Error %s, but the call returned" what (err_name err)
  | exception C.Error e when e = err -> ()
  | exception e -> failf "%s: expected Error %s, got %s" what (err_name err) (exn_name e)
let expect_comp_error what f =
  match f () with
  | _ -> failf "%s: expected Compression_error, but the call returned" what
  | exception C.Error (C.Compression_error _) -> ()
  | exception e -> failf "%s: expected Compression_error, got %s" what (exn_name e)

(* ============================ C01 ============================ *)
let c01 c =
  let b = match strat c 8 with 0 | 1 | 2 -> blk_aes c | 3 | 4 -> blk_des c | 5 | 6 -> blk_3des c | _ -> blk_blowfish c in
  note c "cipher" b.b_name; noteb c "key" b.b_key; label c (List.hd (String.split_on_char '6' b.b_name));
  (* both orders of creation: the first AES object of a process selects the implementation *)
  let dec_first = bool c in
  let early = if dec_first then Some (b.b_mk_dec ()) else None in
  let eo = b.b_mk_enc () in
  let d_o = match early with Some d -> d | None -> b.b_mk_dec () in
  let objs = [| (eo, b.b_enc, "encrypt"); (d_o, b.b_dec, "decrypt") |] in
  check_int "blocksize" b.b_bs (let (o, _, _) = objs.(0) in o#blocksize);
  let n = range c 1 6 in
  for i = 1 to n do
    let (o, rf, nm) = objs.(draw c 1) in
    let x = bytes_n c b.b_bs in
    if i = 1 then noteb c "block" x;
    let expected = rf x in
    let a = range c 0 17 and z = range c 0 17 in
    let fill = bytes_n c (a + b.b_bs + z) in
    (match weighted c [ (3, `Diff); (2, `Inplace); (2, `Same); (2, `Overlap) ] with
     | `Diff ->
       let src = Bytes.of_string fill in
       Bytes.blit_string x 0 src a b.b_bs;
       let before = Bytes.to_string src in
       let a2 = range c 0 17 and z2 = range c 0 17 in
       let dfill = bytes_n c (a2 + b.b_bs + z2) in
       let dst = Bytes.of_string dfill in
       o#transform src a dst a2;
       check_eq (sp "%s %s source buffer" b.b_name nm) before (Bytes.to_string src);
       check_eq (sp "%s %s output" b.b_name nm) expected (Bytes.sub_string dst a2 b.b_bs);
       check_eq (sp "%s %s bytes before output" b.b_name nm) (String.sub dfill 0 a2) (Bytes.sub_string dst 0 a2);
       check_eq (sp "%s %s bytes after output" b.b_name nm) (String.sub dfill (a2 + b.b_bs) z2) (Bytes.sub_string dst (a2 + b.b_bs) z2)
     | `Inplace ->
       let buf = Bytes.of_string fill in
       Bytes.blit_string x 0 buf a b.b_bs;
       o#transform buf a buf a;
       check_eq (sp "%s %s in place" b.b_name nm) (String.sub fill 0 a ^ expected ^ String.sub fill (a + b.b_bs) z) (Bytes.to_string buf)
     | `Overlap ->
       (* same buffer, partly overlapping ranges *)
       let buf = Bytes.of_string (fill ^ fill) in
       let d_o = a + range c 1 (b.b_bs - 1) in
       let so, d_o = if bool c then a, d_o else d_o, a in
       Bytes.blit_string x 0 buf so b.b_bs;
       let exp = Bytes.copy buf in
       Bytes.blit_string expected 0 exp d_o b.b_bs;
       o#transform buf so buf d_o;
       check_eq (sp "%s %s, source at %d and destination at %d of one buffer" b.b_name nm so d_o) (Bytes.to_string exp) (Bytes.to_string buf)
     | `Same ->
       (* same buffer, disjoint ranges *)
       let buf = Bytes.of_string (fill ^ fill) in
       let l = String.length fill in
       let so, d_o = if bool c then a, l + a else l + a, a in
       Bytes.blit_string x 0 buf so b.b_bs;
       let exp = Bytes.copy buf in
       Bytes.blit_string expected 0 exp d_o b.b_bs;
       o#transform buf so buf d_o;
       check_eq (sp "%s %s disjoint ranges of one buffer" b.b_name nm) (Bytes.to_string exp) (Bytes.to_string buf))
  done;
  nontrivial c

(* the inverse law alone, cheap and so with many blocks *)
let c01_inverse c =
  let b = blk_std c in
  let e = b.b_mk_enc () and d = b.b_mk_dec () in
  note c "cipher" b.b_name; noteb c "key" b.b_key;
  let buf = Bytes.create b.b_bs in
  let seed = draw c 0x3FFFFFFF in
  let ref_at = range c 0 199 in
  for i = 0 to 199 do
    let x = expand (seed + i) b.b_bs in
    Bytes.blit_string x 0 buf 0 b.b_bs;
    e#transform buf 0 buf 0;
    if i = ref_at then check_eq (b.b_name ^ " encrypt") (b.b_enc x) (Bytes.to_string buf);
    d#transform buf 0 buf 0;
    check_eq (b.b_name ^ " decrypt (encrypt x)") x (Bytes.to_string buf)
  done;
  nontrivial c

(* ============================ C02 ============================ *)
let feed_transform ?(block = 16) c (t : C.transform) data =
  let out = Buffer.create (String.length data + 16) in
  let f = feeder_t t in
  let pos = ref 0 in
  List.iter (fun n ->
    feed_piece c f (String.sub data !pos n); pos := !pos + n;
    if chance c 1 3 then Buffer.add_string out t#get_string) (chunks ~block c (String.length data));
  t#finish;
  Buffer.add_string out t#get_string;
  Buffer.contents out

let c02_modes c =
  let b = match strat c 7 with 0 | 1 -> blk_aes c | 2 -> blk_des c | 3 -> blk_3des c | 4 -> blk_blowfish c | _ -> blk_toy c in
  let ci = cipher_inst ~blk:b c in
  let u = ci.c_unit in
  let enc = bool c in
  let maxlen = if b.b_name = "des" || String.length b.b_name > 3 && String.sub b.b_name 0 4 = "3des" then 400 else 1200 in
  let n = limit_len ci (length ~dense:150 ~block:u ~max:maxlen c) in
  let n = if ci.c_pad = NoPad then n / u * u else n in
  let m = bytes_n c n in
  note c "cipher" (cinst_str ci enc); noteb c "msg" m; label c (mode_str ci.c_mode |> fun s -> String.sub s 0 (min 3 (String.length s)));
  let ct = ci.c_enc m in
  if enc then check_eq "encryption" ct (feed_transform ~block:u c (ci.c_make true) m)
  else begin
    check_eq "decryption" m (feed_transform ~block:u c (ci.c_make false) ct);
    (* decryption of arbitrary data *)
    if ci.c_pad = NoPad then begin
      let x = bytes_n c n in
      check_eq "decryption of arbitrary data" (ci.c_raw false x) (C.transform_string (ci.c_make false) x)
    end
  end;
  if n >= u then nontrivial c

(* the iv is ignored in ECB mode whatever its length is, and defaults to zeros elsewhere *)
let c02_iv c =
  let b = blk_std c in
  let m = bytes_n c (b.b_bs * range c 1 5) in
  let mode = mode_gen c b.b_bs in
  let key = b.b_key in
  let mk ?iv () = match b.b_bs, String.length key with
    | 16, _ -> C.Cipher.aes ?mode:(mode_lib mode) ?iv key C.Cipher.Encrypt
    | _, 8 when b.b_name = "des" -> C.Cipher.des ?mode:(mode_lib mode) ?iv key C.Cipher.Encrypt
    | _ when b.b_name.[0] = '3' -> C.Cipher.triple_des ?mode:(mode_lib mode) ?iv key C.Cipher.Encrypt
    | _ -> C.Cipher.blowfish ?mode:(mode_lib mode) ?iv key C.Cipher.Encrypt in
  let u = Refs.unit_of b.b_bs (mode_ref b.b_bs mode) in
  let m = String.sub m 0 (String.length m / u * u) in
  note c "cipher" (b.b_name ^ " " ^ mode_str mode); noteb c "msg" m;
  let r0 = C.transform_string (mk ()) m in
  check_eq "default IV is zeros" (C.transform_string (mk ~iv:(String.make b.b_bs '\000') ()) m) r0;
  if mode = MECB then begin
    let iv = bytes_n c b.b_bs in
    check_eq "IV ignored in ECB mode" r0 (C.transform_string (mk ~iv ()) m)
  end;
  nontrivial c

(* counters: long messages around carries, cheap custom cipher *)
class xorblk key bs : C.Block.block_cipher = object
  method blocksize = bs
  method transform src so dst d_o =
    for i = 0 to bs - 1 do
      Bytes.unsafe_set dst (d_o + i) (Char.unsafe_chr (Char.code (Bytes.unsafe_get src (so + i)) lxor Char.code (String.unsafe_get key i)))
    done
  method wipe = ()
end
let c02_carry c =
  let bs = range c 1 20 in
  let n = 1 + strat c bs in
  let n = min n bs in
  let key = bytes_n c bs in
  (* the counter starts a few blocks before a carry into byte k *)
  let k = range c 1 n in
  let iv = bytes_n c (bs - k) ^ String.make (k - 1) '\255' ^ String.make 1 (Char.chr (256 - range c 1 12)) in
  let full = n = bs && bool c in
  let blocks = range c 1 40 in
  let data = bytes_n c (blocks * bs) in
  note c "ctr" (sp "bs=%d inc=%s carry=%d iv=%s blocks=%d" bs (if full then "default" else string_of_int n) k (hex iv) blocks);
  let o = if full then new C.Block.ctr ~iv (new xorblk key bs) else new C.Block.ctr ~iv ~inc:n (new xorblk key bs) in
  let e = fun s -> Refs.xor_str s key in
  let exp = Refs.mode_crypt (Refs.CTRN n) ~encrypting:true ~enc:e ~dec:e ~bs ~iv data in
  let dst = Bytes.create (bs * blocks) in
  for i = 0 to blocks - 1 do o#transform (Bytes.of_string data) (i * bs) dst (i * bs) done;
  check_eq "CTR output around a carry" exp (Bytes.to_string dst);
  if blocks >= 2 then nontrivial c

(* the chaining objects used directly, block by block: separate buffers, in
   place, or disjoint ranges of one buffer; [src] additionally requires that
   a source buffer that is not the destination is left as it was *)
let c02_raw_gen ~src:check_src c =
  let b = match strat c 6 with 0 | 1 -> blk_aes c | 2 -> blk_des c | 3 -> blk_3des c | 4 -> blk_blowfish c | _ -> blk_toy c in
  let bs = b.b_bs in
  let mode = mode_gen c bs in
  let enc = bool c in
  let iv = opt c 4 5 (fun () -> iv_gen c bs) in
  let iv0 = match iv with None -> String.make bs '\000' | Some s -> s in
  let mr = mode_ref bs mode in
  let u = Refs.unit_of bs mr in
  let n = range c 1 12 in
  let data = bytes_n c (n * u) in
  note c "object" (sp "%s %s %s iv=%s key=%s" b.b_name (mode_str mode) (if enc then "encrypt" else "decrypt") (hex iv0) (show b.b_key));
  noteb c "data" data; label c (String.sub (mode_str mode) 0 3);
  let bc = if enc || is_ctr_like mode then b.b_mk_enc () else b.b_mk_dec () in
  let o : C.Block.block_cipher = match mode with
    | MECB -> bc
    | MCBC | MDefault -> if enc then new C.Block.cbc_encrypt ?iv bc else new C.Block.cbc_decrypt ?iv bc
    | MCFB n -> if enc then new C.Block.cfb_encrypt ?iv n bc else new C.Block.cfb_decrypt ?iv n bc
    | MOFB n -> new C.Block.ofb ?iv n bc
    | MCTR -> new C.Block.ctr ?iv bc
    | MCTRN n -> new C.Block.ctr ?iv ~inc:n bc in
  check_int "blocksize" u o#blocksize;
  let exp = Refs.mode_crypt mr ~encrypting:enc ~enc:b.b_enc ~dec:b.b_dec ~bs ~iv:iv0 data in
  for i = 0 to n - 1 do
    let x = String.sub data (i * u) u and y = String.sub exp (i * u) u in
    let a = range c 0 9 and z = range c 0 9 in
    let fill = expand (draw c 0xFFFFFF) (2 * (a + u + z)) in
    let at = sp "block %d" i in
    match weighted c [ (3, `Diff); (3, `Inplace); (2, `Same) ] with
    | `Diff ->
      let s = Bytes.of_string fill in
      Bytes.blit_string x 0 s a u;
      let before = Bytes.to_string s in
      let a2 = range c 0 9 and z2 = range c 0 9 in
      let dst = Bytes.make (a2 + u + z2) '\x77' in
      o#transform s a dst a2;
      check_eq (at ^ ", separate buffers") (String.make a2 '\x77' ^ y ^ String.make z2 '\x77') (Bytes.to_string dst);
      if check_src then check_eq (at ^ ", source buffer") before (Bytes.to_string s)
    | `Inplace ->
      let s = Bytes.of_string fill in
      Bytes.blit_string x 0 s a u;
      let e = Bytes.copy s in
      Bytes.blit_string y 0 e a u;
      o#transform s a s a;
      check_eq (at ^ ", in place") (Bytes.to_string e) (Bytes.to_string s)
    | `Same ->
      let s = Bytes.of_string fill in
      let l = a + u + z in
      let so, d_o = if bool c then a, l + a else l + a, a in
      Bytes.blit_string x 0 s so u;
      let e = Bytes.copy s in
      Bytes.blit_string y 0 e d_o u;
      o#transform s so s d_o;
      if not check_src then Bytes.blit_string x 0 s so u;
      check_eq (at ^ ", disjoint ranges of one buffer") (Bytes.to_string e) (Bytes.to_string s)
  done;
  if n >= 2 then nontrivial c
let c02_raw c = c02_raw_gen ~src:false c

(* exhaust a CTR_N counter: no keystream reuse, refusal with Message_too_long *)
let c02_exhaust n c =
  let bs = range c n (n + 3) in
  let key = bytes_n c bs in
  let iv = if bool c then iv_gen c bs else bytes_n c bs in
  let o = new C.Block.ctr ~iv ~inc:n (new xorblk key bs) in
  let total = 1 lsl (8 * n) in
  note c "ctr" (sp "bs=%d inc=%d iv=%s" bs n (hex iv));
  let src = Bytes.make bs '\000' and dst = Bytes.create bs in
  (* expected counter value kept as an integer on the low n bytes *)
  let low = ref 0 in
  for i = bs - n to bs - 1 do low := (!low lsl 8) lor Char.code iv.[i] done;
  let hi_ok = String.init (bs - n) (fun i -> Char.chr (Char.code iv.[i] lxor Char.code key.[i])) in
  let klow = ref 0 in
  for i = bs - n to bs - 1 do klow := (!klow lsl 8) lor Char.code key.[i] done;
  for blk = 1 to total - 1 do
    (try o#transform src 0 dst 0
     with e -> failf "CTR_N %d refuses block %d of %d: %s" n blk total (exn_name e));
    let v = ref 0 in
    for i = bs - n to bs - 1 do v := (!v lsl 8) lor Char.code (Bytes.unsafe_get dst i) done;
    if !v lxor !klow <> !low then failf "CTR_N %d: wrong keystream at block %d" n blk;
    for i = 0 to bs - n - 1 do
      if Bytes.unsafe_get dst i <> String.unsafe_get hi_ok i then failf "CTR_N %d: high bytes changed at block %d" n blk done;
    low := (!low + 1) land (total - 1)
  done;
  (* at the latest when the counter has taken all its values, the cipher refuses *)
  let refused = ref false in
  (try for _ = 1 to 2 do o#transform src 0 dst 0 done with C.Error C.Message_too_long -> refused := true);
  check (sp "CTR_N %d reuses keystream after %d blocks instead of raising Message_too_long" n total) !refused;
  nontrivial c
(* the same through the transform interface, n = 1 and 2 *)
let c02_exhaust_cipher c =
  let b = blk_any c in
  let n = 1 in
  if b.b_bs < n then () else begin
    let iv = iv_gen c b.b_bs in
    let t () = (new C.Block.cipher (new C.Block.ctr ~iv ~inc:n (b.b_mk_enc ())) :> C.transform) in
    let good = 255 * b.b_bs in
    let m = bytes_n c good in
    note c "cipher" (sp "%s CTR_N 1 iv=%s" b.b_name (hex iv));
    let exp = Refs.mode_crypt (Refs.CTRN n) ~encrypting:true ~enc:b.b_enc ~dec:b.b_dec ~bs:b.b_bs ~iv m in
    check_eq "255 blocks" exp (C.transform_string (t ()) m);
    let extra = range c 2 20 in
    let m2 = m ^ bytes_n c (extra * b.b_bs) in
    (match feed_transform ~block:b.b_bs c (t ()) m2 with
     | _ -> failf "CTR_N 1 accepts %d blocks" (255 + extra)
     | exception C.Error C.Message_too_long -> ());
    nontrivial c
  end

(* exhaust a 4-byte counter: a cipher that does nothing makes it affordable *)
class nopblk bs : C.Block.block_cipher = object
  method blocksize = bs
  method transform src so dst d_o = ()
  method wipe = ()
end
let c02_exhaust4 c =
  let o = new C.Block.ctr ?inc:(if bool c then Some 4 else None) (new nopblk 4) in
  note c "ctr" "bs=4 inc=4";
  let src = Bytes.make 4 '\000' and dst = Bytes.create 4 in
  let n = ref 0 in
  let refused =
    (try while !n < 1 lsl 32 + 1 do o#transform src 0 dst 0; incr n; if !n land 0xFFFFFF = 0 then heartbeat () done; false
     with C.Error C.Message_too_long -> true) in
  if refused && !n < 1 lsl 32 - 1 then failf "CTR with a 4-byte counter refuses block %d of 2^32" (!n + 1);
  check "CTR with a 4-byte counter reuses keystream after 2^32 blocks instead of raising Message_too_long" refused;
  nontrivial c

(* ============================ C03 ============================ *)
let c03_transform c =
  let ti = if strat c 3 = 0 then t_arcfour c else t_chacha c in
  let n = length ~dense:330 ~block:64 ~max:3000 c in
  let m = ti.t_gen c n in
  note c "cipher" ti.t_desc; noteb c "msg" m; label c ti.t_kind;
  let exp = ti.t_ref m in
  check_eq (ti.t_kind ^ " output") exp (feed_transform ~block:64 c (ti.t_make ()) m);
  (match ti.t_inv with Some f -> check_eq "applying the cipher twice" m (C.transform_string (f ()) exp) | None -> ());
  if String.length m > 0 then nontrivial c

(* raw stream cipher objects: arbitrary piece sizes, offsets, in place *)
let c03_raw c =
  let arc = strat c 3 = 0 in
  let key, iv, ctr, is12 =
    if arc then (bytes_n c (range c 1 256), None, None, false) else chacha_params c in
  let o : C.Stream.stream_cipher = if arc then new C.Stream.arcfour key else new C.Stream.chacha20 ?iv ?ctr key in
  let total = length ~dense:400 ~block:64 ~max:5000 c in
  let total = chacha_max is12 ctr total in
  let ks = if arc then Refs.rc4_stream key total
    else Refs.Chacha.stream key (match iv with None -> String.make 8 '\000' | Some s -> s) (match ctr with None -> 0L | Some x -> x) total in
  note c "cipher" (sp "%s key=%s iv=%s ctr=%s total=%d" (if arc then "arcfour" else "chacha20") (show key)
    (match iv with None -> "-" | Some s -> show s) (match ctr with None -> "-" | Some x -> sp "0x%Lx" x) total);
  let pos = ref 0 in
  List.iter (fun n ->
    let a = range c 0 9 and z = range c 0 9 in
    let x = expand (draw c 0xFFFFFF) (a + n + z) in
    let exp = String.sub x 0 a ^ Refs.xor_str (String.sub x a n) (String.sub ks !pos n) ^ String.sub x (a + n) z in
    if bool c then begin
      let buf = Bytes.of_string x in
      o#transform buf a buf a n;
      check_eq (sp "in-place keystream at %d" !pos) exp (Bytes.to_string buf)
    end else begin
      let src = Bytes.of_string x in
      let a2 = range c 0 9 in
      let dst = Bytes.make (a2 + n + 5) '\x77' in
      o#transform src a dst a2 n;
      check_eq "source" x (Bytes.to_string src);
      check_eq (sp "keystream at %d" !pos) (String.make a2 '\x77' ^ String.sub exp a n ^ String.make 5 '\x77') (Bytes.to_string dst)
    end;
    pos := !pos + n) (chunks ~block:64 c total);
  if total > 0 then nontrivial c

(* every piece length at every position of the keystream block *)
let c03_pairs c =
  let arc = strat c 3 = 0 in
  let p = strat c 66 in
  let key, iv, ctr, _ =
    if arc then (bytes_n c (range c 1 256), None, None, false) else
      (bytes_n c (pick c [| 16; 32 |]), opt c 2 3 (fun () -> bytes_n c (pick c [| 8; 12 |])), None, false) in
  let mk () : C.Stream.stream_cipher = if arc then new C.Stream.arcfour key else new C.Stream.chacha20 ?iv ?ctr key in
  let total = 66 + 280 + 70 in
  let ks = if arc then Refs.rc4_stream key total
    else Refs.Chacha.stream key (match iv with None -> String.make 8 '\000' | Some s -> s) 0L total in
  let off = range c 0 15 and off2 = range c 0 15 in
  note c "cipher" (sp "%s key=%s iv=%s first piece %d" (if arc then "arcfour" else "chacha20") (show key) (match iv with None -> "-" | Some s -> show s) p);
  let src = Bytes.make (total + 16) '\000' and dst = Bytes.create (total + 32) in
  for q = 0 to 280 do
    let o = mk () in
    Bytes.fill dst 0 (total + 32) '\x77';
    o#transform src off dst off2 p;
    o#transform src off dst (off2 + p) q;
    o#transform src off dst (off2 + p + q) 5;
    if not (String.equal (String.sub ks 0 (p + q + 5)) (Bytes.sub_string dst off2 (p + q + 5))) then
      failf "pieces of %d, %d and 5 bytes: wrong keystream" p q;
    if Bytes.get dst (off2 + p + q + 5) <> '\x77' || (off2 > 0 && Bytes.get dst (off2 - 1) <> '\x77') then failf "pieces of %d, %d and 5 bytes: wrote outside the range" p q
  done;
  nontrivial c

(* long streams, sampled *)
let c03_long c =
  let arc = strat c 2 = 0 in
  let key = if arc then bytes_n c (range c 1 256) else bytes_n c (pick c [| 16; 32 |]) in
  let iv = bytes_n c 8 in
  let total = range c 100_000 (if c.tier = Quick then 600_000 else 4_000_000) in
  let ctr = if bool c then Int64.of_int (0x1_0000_0000 - range c 0 (total / 64)) else Int64.of_int (draw c 0xFFFFFF) in
  note c "cipher" (sp "%s key=%s total=%d ctr=0x%Lx" (if arc then "arcfour" else "chacha20") (show key) total ctr);
  let t = if arc then C.Cipher.arcfour key C.Cipher.Encrypt else C.Cipher.chacha20 ~iv ~ctr key C.Cipher.Encrypt in
  let ks = if arc then Refs.rc4_stream key total else Refs.Chacha.stream key iv ctr total in
  let piece = range c 1 70000 in
  let z = Bytes.make piece '\000' in
  let pos = ref 0 in
  while !pos < total do
    let n = min piece (total - !pos) in
    t#put_substring z 0 n;
    check_eq (sp "keystream at %d" !pos) (String.sub ks !pos n) t#get_string;
    pos := !pos + n
  done;
  nontrivial c

(* one call of more than 4 gigabytes *)
let c03_hugepiece c =
  let arc = strat c 2 = 1 in
  let key = bytes_n c (if arc then range c 1 256 else 32) in
  let iv = bytes_n c 8 in
  let n = (1 lsl 32) + range c 65 5000 in
  note c "cipher" (sp "%s key=%s one piece of %d" (if arc then "arcfour" else "chacha20") (show key) n);
  let mk () : C.Stream.stream_cipher = if arc then new C.Stream.arcfour key else new C.Stream.chacha20 ~iv key in
  let o = mk () in
  let b = Hs.sparse_alloc (n + 8) in
  o#transform b 4 b 4 n;
  heartbeat ();
  let next = Bytes.make 100 '\000' in
  o#transform next 0 next 0 100;
  let at p l = Bytes.sub_string b (4 + p) l in
  let pts = [ 0; 1 lsl 31 - 50; n - 100; range c 0 (n - 100) ] in
  let got = List.map (fun p -> at p 100) pts and edge = Bytes.sub_string b 0 4 ^ Bytes.sub_string b (n + 4) 4 in
  Hs.sparse_free b;
  check_eq "bytes around the piece" (String.make 8 '\000') edge;
  let exp p = String.sub (Refs.Chacha.stream key iv (Int64.of_int (p / 64)) (100 + 64)) (p land 63) 100 in
  if not arc then begin
    List.iter2 (fun p g -> check_eq (sp "keystream at %d" p) (exp p) g) pts got;
    check_eq "keystream after the piece" (exp n) (Bytes.to_string next)
  end else begin
    (* the same stream in pieces of one megabyte *)
    let o = mk () in
    let z = String.make (1 lsl 20) '\000' in
    let buf = Bytes.create (1 lsl 20) in
    let pos = ref 0 in
    check_eq "keystream at 0" (Refs.rc4_stream key 100) (List.hd got);
    while !pos < n do
      let k = min (1 lsl 20) (n - !pos) in
      Bytes.blit_string z 0 buf 0 k;
      o#transform buf 0 buf 0 k;
      heartbeat ();
      List.iter2 (fun p g -> if p >= !pos && p + 100 <= !pos + k then check_eq (sp "keystream at %d" p) (Bytes.sub_string buf (p - !pos) 100) g) pts got;
      pos := !pos + k
    done;
    let x = Bytes.make 100 '\000' in
    o#transform x 0 x 0 100;
    check_eq "keystream after the piece" (Bytes.to_string x) (Bytes.to_string next)
  end;
  nontrivial c

(* ============================ C04 ============================ *)
let strip_ref kind s =
  let n = String.length s in
  match kind with
  | PLen ->
    let k = Char.code s.[n - 1] in
    if k = 0 || k > n then None
    else if String.sub s (n - k) k = String.make k (Char.chr k) then Some (n - k) else None
  | _ ->
    let rec go i = if i < 0 then None else if s.[i] = '\128' then Some i else if s.[i] = '\000' then go (i - 1) else None in
    go (n - 1)
let c04_scheme c =
  let kind = if bool c then PLen else P8000 in
  let sch : C.Padding.scheme = if kind = PLen then C.Padding.length else C.Padding._8000 in
  let bs = 1 + strat c 255 in
  let bs = if kind = P8000 && chance c 1 10 then bs + 255 else bs in
  let used = range c 0 (bs - 1) in
  note c "scheme" (sp "%s bs=%d used=%d" (pad_str kind) bs used);
  let data = bytes_n c bs in
  let buf = Bytes.of_string data in
  sch#pad buf used;
  let exp = pad_ref kind bs (String.sub data 0 used) in
  check_eq "pad" exp (Bytes.to_string buf);
  let before = Bytes.to_string buf in
  check_int "strip (pad)" used (sch#strip buf);
  check_eq "strip leaves the block unchanged" before (Bytes.to_string buf);
  (* near misses and arbitrary blocks *)
  for _ = 1 to 4 do
    let x = match weighted c [ (3, `Mut); (1, `Rand); (2, `Tail); (1, `Const) ] with
      | `Mut -> let b = Bytes.of_string exp in
        let p = if bool c then range c 0 (bs - 1) else range c used (bs - 1) in
        Bytes.set b p (Char.chr (draw c 255)); Bytes.to_string b
      | `Rand -> bytes_n c bs
      | `Tail -> let k = range c 0 (min 255 (bs + 2)) in
        let b = Bytes.of_string data in
        let m = min bs (range c 1 (k + 1)) in
        Bytes.fill b (bs - m) m (Char.chr k); Bytes.to_string b
      | `Const -> String.make bs (Char.chr (pick c [| 0; 1; 128; 255; min 255 bs |])) in
    let got = match sch#strip (Bytes.of_string x) with
      | n -> Some n | exception C.Error C.Bad_padding -> None
      | exception e -> failf "strip %s raises %s" (show x) (exn_name e) in
    if got <> strip_ref kind x then failf "strip %s bs=%d %s: got %s, expected %s" (pad_str kind) bs (show x)
      (match got with None -> "Bad_padding" | Some n -> string_of_int n)
      (match strip_ref kind x with None -> "Bad_padding" | Some n -> string_of_int n)
  done;
  nontrivial c

let c04_cipher c =
  let pad = if bool c then PLen else P8000 in
  let b = match strat c 4 with 0 -> blk_toy ~max:255 c | 1 -> blk_toy c | _ -> blk_std c in
  let mode = match weighted c [ (2, MECB); (3, MCBC); (2, MCFB (range c 1 b.b_bs)); (1, MOFB (range c 1 b.b_bs)); (1, if b.b_bs >= 4 then MCTR else MCBC) ] with m -> m in
  let ci = cipher_inst ~blk:b ~mode ~pad c in
  let u = ci.c_unit in
  let n = length ~dense:80 ~block:u ~max:600 c in
  let m = bytes_n c n in
  note c "cipher" (cinst_str ci true); noteb c "msg" m;
  let ct = feed_transform ~block:u c (ci.c_make true) m in
  check_eq "padded encryption" (ci.c_enc m) ct;
  check_eq "padded decryption" m (feed_transform ~block:u c (ci.c_make false) ct);
  (* decryption of arbitrary whole blocks *)
  let x = match weighted c [ (2, `Craft); (1, `Rand); (1, `Cut) ] with
    | `Rand -> bytes_n c (u * range c 0 4)
    | `Cut -> String.sub ct 0 (u * range c 0 (String.length ct / u))
    | `Craft ->
      (* choose the final plaintext block, possibly malformed *)
      let last = Bytes.of_string (pad_ref pad u (bytes_n c (range c 0 (u - 1)))) in
      if chance c 2 3 then Bytes.set last (range c 0 (u - 1)) (Char.chr (pick c [| 0; 1; 128; 255; min 255 u; min 255 (u + 1) |]));
      ci.c_raw true (String.sub m 0 (n / u * u) ^ Bytes.to_string last) in
  let x = if chance c 1 4 && u > 1 then x ^ bytes_n c (range c 1 (u - 1)) else x in
  let expected =
    if x = "" || String.length x mod u <> 0 then `Err C.Wrong_data_length
    else
      let p = ci.c_raw false x in
      let l = String.length p in
      match strip_ref pad (String.sub p (l - u) u) with
      | None -> `Err C.Bad_padding
      | Some k -> `Ok (String.sub p 0 (l - u + k)) in
  (match feed_transform ~block:u c (ci.c_make false) x, expected with
   | r, `Ok e -> check_eq "padded decryption of crafted data" e r
   | _, `Err e -> failf "padded decryption accepts bad data, expected %s" (err_name e)
   | exception C.Error e ->
     (match expected with
      | `Err e' when e = e' -> ()
      | `Err e' -> failf "padded decryption raises %s instead of %s" (err_name e) (err_name e')
      | `Ok _ -> failf "padded decryption of valid data raises %s" (err_name e)));
  nontrivial c

(* ============================ C05 ============================ *)
(* model: [fed] what was put, [out] what was read *)
let read_step c (t : C.transform) =
  let av = t#available_output in
  match weighted c [ (3, `Str); (3, `Sub); (3, `Some); (1, `Byte) ] with
  | `Str -> let s = t#get_string in
    check_int "length of get_string vs available_output" av (String.length s);
    check_int "available_output after get_string" 0 t#available_output; s
  | `Sub -> let (b, p, n) = t#get_substring in
    check_int "length of get_substring vs available_output" av n;
    let s = Bytes.sub_string b p n in
    check_int "available_output after get_substring" 0 t#available_output; s
  | (`Some | `Byte) as k ->
    let n = if k = `Byte then 1 else range c 1 40 in
    let b = Buffer.create n in
    for i = 1 to n do
      let got = if (i + n) land 1 = 0 then (match t#get_char with ch -> Some ch | exception End_of_file -> None)
        else (match t#get_byte with v -> if v < 0 || v > 255 then failf "get_byte returned %d" v; Some (Char.chr v) | exception End_of_file -> None) in
      match got with
      | Some ch -> if Buffer.length b >= av then failf "get_char returned more than available_output"; Buffer.add_char b ch
      | None -> if Buffer.length b < av then failf "get_char raised End_of_file with %d bytes available" (av - Buffer.length b)
    done;
    check_int "available_output after get_char" (av - Buffer.length b) t#available_output;
    Buffer.contents b

let is_prefix p s = String.length p <= String.length s && String.sub s 0 (String.length p) = p

(* drive a transform with a generated history; [expect_out fed] = full output for complete input *)
let history ?(norm = fun s -> s) c (ti : tinst) (t : C.transform) data ~flush_last =
  let full = ti.t_ref data in
  let n = String.length data in
  let out = Buffer.create (String.length full) in
  let fed = ref 0 in
  let nflush = ref 0 and nread = ref 0 and nput = ref 0 in
  let check_prefix what =
    if ti.t_exact then
      let o = Buffer.contents out in
      if not (is_prefix o full) then failf "%s: bytes read so far are not a prefix of the expected output: got %s, expected %s" what (show o) (show full) in
  let do_flush () =
    incr nflush;
    let before = t#available_output in
    match ti.t_flush (String.sub data 0 !fed) with
    | FAll e ->
      (match t#flush with
       | () ->
         check_int (sp "output available after flush at %d" !fed) (String.length e) (Buffer.length out + t#available_output)
       | exception ex -> failf "flush after %d bytes raises %s" !fed (exn_name ex))
    | FFail ->
      (match t#flush with
       | () -> failf "flush after %d bytes (incomplete block) does not raise" !fed
       | exception C.Error C.Wrong_data_length ->
         if t#available_output < before then failf "failed flush lost output"
       | exception ex -> failf "flush after %d bytes raises %s" !fed (exn_name ex))
    | FEither e ->
      (match t#flush with
       | () -> check_int (sp "output available after flush at %d" !fed) (String.length e) (Buffer.length out + t#available_output)
       | exception C.Error C.Wrong_data_length -> ()
       | exception ex -> failf "flush after %d bytes raises %s" !fed (exn_name ex))
    | FAny -> () in
  let f = feeder_t t in
  let put k = incr nput; feed_piece c f (String.sub data !fed k); fed := !fed + k in
  let read () = incr nread; Buffer.add_string out (read_step c t); check_prefix "get" in
  List.iter (fun k ->
    put k;
    (match weighted c [ (4, `Nothing); (3, `Read); (2, `Flush); (1, `FlushRead) ] with
     | `Nothing -> ()
     | `Read -> read ()
     | `Flush -> if flush_last || !fed < n then do_flush ()
     | `FlushRead -> if flush_last || !fed < n then do_flush (); read ())) (chunks ~block:ti.t_block c n);
  t#finish;
  (* drain *)
  let guard = ref 0 in
  while t#available_output > 0 && !guard < 10000 do incr guard; if !guard > 30 then Buffer.add_string out t#get_string else read () done;
  check "get_char at the end" (match t#get_char with _ -> false | exception End_of_file -> true);
  check "get_byte at the end" (match t#get_byte with _ -> false | exception End_of_file -> true);
  check_eq "get_string at the end" "" t#get_string;
  check_eq "total output" (norm full) (norm (Buffer.contents out));
  (!nput, !nread, !nflush)

let c05 c =
  let ti = match strat c 14 with
    | 0 -> t_arcfour c | 1 -> t_chacha c | 2 -> t_b64enc c | 3 -> t_b64dec c | 4 -> t_hexenc c | 5 -> t_hexdec c | 6 -> t_b64multi c
    | _ -> t_cipher c in
  let t = ti.t_make () in
  note c "transform" ti.t_desc; label c ti.t_kind;
  check_int "input_block_size" ti.t_inb t#input_block_size;
  check_int "output_block_size" ti.t_outb t#output_block_size;
  let n = length ~dense:200 ~block:ti.t_block ~max:1500 c in
  let data = ti.t_gen c n in
  noteb c "input" data;
  let norm = if ti.t_exact then (fun s -> s) else strip_nl in
  let padded_dec = String.length ti.t_kind > 6 && ti.t_outb = 1 && (match String.index_opt ti.t_kind '-' with Some i -> String.sub ti.t_kind (i + 1) (String.length ti.t_kind - i - 1) = "padded" | None -> false) in
  let (p, r, f) = history ~norm c ti t data ~flush_last:(not padded_dec) in
  notei c "puts" p; notei c "reads" r; notei c "flushes" f;
  if p >= 2 then nontrivial c

(* output buffer growth: much output left unread, then partial reads *)
let c05_buffer c =
  let ti = match strat c 4 with 0 -> t_chacha c | 1 -> t_hexenc c | 2 -> t_b64enc c | _ -> t_arcfour c in
  let t = ti.t_make () in
  note c "transform" ti.t_desc;
  let total = length ~dense:10 ~block:256 ~max:6000 c in
  let data = ti.t_gen c total in
  let full = ti.t_ref data in
  let fed = ref 0 and out = Buffer.create 100 in
  let ops = ref 0 in
  while !fed < String.length data do
    incr ops;
    let k = min (String.length data - !fed) (match weighted c [ (2, `S); (2, `M); (1, `L) ] with `S -> range c 0 10 | `M -> range c 100 300 | `L -> range c 400 1200) in
    let k = max k 1 in
    t#put_string (String.sub data !fed k); fed := !fed + k;
    let r = range c 0 (t#available_output + 1) in
    let r = if chance c 1 2 then r else min r 5 in
    for _ = 1 to r do (match t#get_char with ch -> Buffer.add_char out ch | exception End_of_file -> ()) done;
    if not (is_prefix (Buffer.contents out) full) then failf "output differs after %d bytes read" (Buffer.length out)
  done;
  t#finish;
  Buffer.add_string out t#get_string;
  check_eq "total output" full (Buffer.contents out);
  if !ops >= 2 then nontrivial c

(* ============================ C06 ============================ *)
let msg_for c (h : hinst) n = bytes_n c (n / h.h_unit * h.h_unit)
let c06 c =
  let h = gen_hash_strat c in
  let n = length ~dense:300 ~block:h.h_block ~max:3000 c in
  let n = if chance c 1 12 then n * range c 1 40 else n in
  let m = msg_for c h n in
  note c "hash" h.h_desc; noteb c "msg" m;
  let o1 = h.h_make () in
  check_int "hash_size" h.h_size o1#hash_size;
  o1#add_string m;
  let whole = o1#result in
  check_int "length of result" h.h_size (String.length whole);
  let o2 = h.h_make () in
  let pieces = feed_all ~block:h.h_block c (feeder_h o2) m in
  check_eq "result in pieces" whole o2#result;
  check_eq "hash_string" whole (C.hash_string (h.h_make ()) m);
  notei c "pieces" pieces;
  if pieces >= 2 then nontrivial c

(* every split point of one message *)
let md5_index = (let r = ref 0 in Array.iteri (fun i (n, _) -> if n = "md5" then r := i) all_hash_kinds; !r)
let c06_split c =
  let h = gen_hash_strat c in
  let n = h.h_block + range c 0 (2 * h.h_block) in
  let n = min n 300 in
  let m = msg_for c h n in
  note c "hash" h.h_desc; noteb c "msg" m;
  let whole = C.hash_string (h.h_make ()) m in
  let l = String.length m in
  let b = Bytes.of_string m in
  for k = 0 to l do
    let o = h.h_make () in
    o#add_substring b 0 k;
    o#add_substring b k (l - k);
    check_eq (sp "split at %d of %d" k l) whole o#result
  done;
  (* bytewise *)
  let o = h.h_make () in
  String.iteri (fun i ch -> if i land 1 = 0 then o#add_char ch else o#add_byte (Char.code ch)) m;
  check_eq "byte by byte" whole o#result;
  if l > 1 then nontrivial c

(* every length of a second piece after every amount of data left in the block
   buffer; the pieces lie at the end of [alloc]ated buffers *)
let hash_pairs alloc c =
  let (nm, g) = all_hash_kinds.(strat c (Array.length all_hash_kinds)) in
  let h = g c in
  label c nm;
  let blk = min h.h_block 144 in
  let u = h.h_unit in
  let rows = if c.tier = Quick then 12 else 40 in
  let maxq = 2 * blk + 20 in
  let maxp = 2 * blk in
  let size = maxp + maxq + 7 in
  let size = size + (7 - size land 7 + 8) land 7 in
  let m = expand (draw c 0x3FFFFFFF) size in
  note c "hash" h.h_desc; noteb c "msg" m;
  let whole = Array.make (maxp + maxq + 1) "" in
  let digest n = if whole.(n) = "" then whole.(n) <- C.hash_string (h.h_make ()) (String.sub m 0 n); whole.(n) in
  let b : bytes = alloc size in
  for _ = 1 to rows do
    let p = range c 0 maxp in
    let p = if u > 1 then p mod (2 * u) else p in
    for q = 0 to maxq do
      if (p + q) mod u = 0 then begin
        let o = h.h_make () in
        (* the first piece at the start of the buffer, the second at its end *)
        Bytes.blit_string m 0 b 0 p;
        o#add_substring b 0 p;
        Bytes.blit_string m p b (size - q) q;
        o#add_substring b (size - q) q;
        if not (String.equal (digest (p + q)) o#result) then failf "pieces of %d and %d bytes: wrong result" p q
      end
    done
  done;
  nontrivial c
let c06_pairs = hash_pairs Bytes.create

(* one piece of more than 4 gigabytes, mostly zeros, against smaller pieces *)
let big_order =
  let first = List.filter_map (fun n -> let r = ref None in Array.iteri (fun i (m, _) -> if m = n then r := Some i) all_hash_kinds; !r)
    [ "md5"; "sha1"; "sha256"; "sha512"; "sha3"; "ripemd160"; "blake2b"; "blake2s"; "blake3"; "siphash"; "mac_blake2s"; "mac_blake2b"; "mac_blake3"; "siphash128" ] in
  Array.of_list (first @ List.filter (fun i -> not (List.mem i first)) (List.init (Array.length all_hash_kinds) (fun i -> i)))
let c06_bigpiece c =
  let (nm, g) = all_hash_kinds.(big_order.(strat c (Array.length big_order))) in
  let h = g c in
  let unit = h.h_unit in
  let n = ((1 lsl 32) + range c 1 5000) / unit * unit in
  let edge = 4096 in
  let head = bytes_n c edge and tail = bytes_n c edge in
  let cut = range c 1 (1 lsl 30) in
  note c "hash" h.h_desc; notei c "piece" n; notei c "first cut" cut; label c nm;
  let b = Hs.sparse_alloc n in
  Bytes.blit_string head 0 b 0 edge; Bytes.blit_string tail 0 b (n - edge) edge;
  let o1 = h.h_make () in
  o1#add_substring b 0 n;
  heartbeat ();
  let whole = o1#result in
  let o2 = h.h_make () in
  o2#add_substring b 0 cut;
  let pos = ref cut in
  while !pos < n do let k = min (1 lsl 30) (n - !pos) in o2#add_substring b !pos k; heartbeat (); pos := !pos + k done;
  let pieces = o2#result in
  Hs.sparse_free b;
  check_eq "one piece of more than 4 gigabytes" whole pieces;
  nontrivial c

(* ============================ C07 / C08 ============================ *)
let hash_vs_ref (h : hinst) c n =
  let m = msg_for c h n in
  note c "hash" h.h_desc; noteb c "msg" m;
  let o = h.h_make () in
  ignore (feed_all ~block:h.h_block c (feeder_h o) m);
  let r = o#result in
  check_eq (h.h_desc ^ " digest") (h.h_ref m) r;
  nontrivial c
let c07 c =
  let k = strat c (Array.length hash_kinds) in
  let (nm, g) = hash_kinds.(k) in
  label c nm;
  let h = g c in
  let n = match weighted c [ (4, `D); (3, `L) ] with
    | `D -> strat_at c (Array.length hash_kinds) 300
    | `L -> length ~dense:300 ~block:h.h_block ~max:2500 c in
  hash_vs_ref h c n
let c07_long c =
  let k = strat c (Array.length hash_kinds) in
  let h = snd hash_kinds.(k) c in
  let n = match weighted c [ (2, `B); (1, `R) ] with
    | `B -> max 0 (1024 * range c 1 (if c.tier = Quick then 70 else 300) + range c 0 2 - 1)
    | `R -> range c 1000 (if c.tier = Quick then 60000 else 300000) in
  hash_vs_ref h c n
(* BLAKE3: chunk and tree structure, output lengths *)
let c07_blake3 c =
  let key = if bool c then Some (bytes_n c 32) else None in
  let chunks_n = match weighted c [ (12, `D); (1, `B) ] with
    | `D -> strat c (if c.tier = Quick then 40 else 140)
    | `B -> (1 lsl range c 5 9) + (match draw c 2 with 0 -> 0 | 1 -> -1 | _ -> range c 0 100) in
  let n = max 0 (1024 * chunks_n + (match weighted c [ (1, `Z); (2, `E); (2, `R) ] with `Z -> 0 | `E -> range c 0 2 - 1 | `R -> range c 0 1023)) in
  let m = bytes_n c n in
  let sz = 8 * (match weighted c [ (2, `N); (1, `L) ] with `N -> 32 | `L -> range c 1 400) in
  let o = match key with None -> C.Hash.blake3 sz | Some k -> C.MAC.blake3 sz k in
  note c "blake3" (sp "len=%d out=%d keyed=%b" n (sz / 8) (key <> None));
  (* pieces around chunk boundaries *)
  let pos = ref 0 in
  while !pos < n do
    let k = match weighted c [ (2, `C); (2, `R); (1, `All) ] with
      | `C -> max 1 (1024 * range c 1 5 + range c 0 2 - 1) | `R -> range c 1 3000 | `All -> n in
    let k = min k (n - !pos) in
    o#add_substring (Bytes.unsafe_of_string m) !pos k; pos := !pos + k
  done;
  check_eq "blake3 digest" (Refs.Blake3.hash ?key m (sz / 8)) o#result;
  if n > 1024 then nontrivial c

(* long outputs; of very long ones, a sample of the blocks is compared *)
let blake3_xof ~mac c =
  let key = if mac then Some (bytes_n c 32) else None in
  let len = match strat c 40 with
    | 0 | 20 -> range c 4_000_000 4_400_000 | 1 -> range c 1_000_000 9_000_000 | 2 -> 64 * range c 65530 65540 + range c 0 2
    | i when i < 20 -> range c 700 20_000 | i when i < 30 -> 64 * range c 250 260 + range c 0 63 | _ -> range c 10_000 120_000 in
  let m = bytes_n c (length ~dense:100 ~block:64 ~max:3000 c) in
  note c "blake3 output" (sp "%d bytes, message of %d bytes" len (String.length m));
  let o = match key with None -> C.Hash.blake3 (8 * len) | Some k -> C.MAC.blake3 (8 * len) k in
  o#add_string m;
  check_int "hash_size" len o#hash_size;
  let r = o#result in
  check_eq "blake3 output" (Refs.Blake3.hash ?key m len) r;
  nontrivial c
let blake3_xof_huge c =
  let len = match strat c 2 with 0 -> (1 lsl 32) + range c 1 4000 | _ -> (1 lsl 31) - 100 + range c 0 4000 in
  let m = bytes_n c (range c 0 100) in
  note c "blake3 output" (sp "%d bytes" len);
  let o = C.Hash.blake3 (8 * len) in
  o#add_string m;
  let r = o#result in
  heartbeat ();
  check_int "length" len (String.length r);
  let x = Refs.Blake3.xof m in
  let last = (len - 1) / 64 in
  let one i = let n = min 64 (len - 64 * i) in check_eq (sp "blake3 output block %d" i) (String.sub (x i) 0 n) (String.sub r (64 * i) n) in
  List.iter (fun p -> for d = -3 to 3 do let i = p + d in if i >= 0 && i <= last then one i done)
    [ 0; last; 1 lsl 8; 1 lsl 16; 1 lsl 20; 1 lsl 24; 1 lsl 25; 1 lsl 26 ];
  let s = ref (draw c 0xFFFFFF) in
  for _ = 1 to 20000 do s := mix (!s + 1); one ((!s land max_int) mod (last + 1)) done;
  nontrivial c

(* long messages, against a reference in C *)
let c07_blake3_long c =
  let key = if strat c 2 = 1 then bytes_n c 32 else "" in
  let i = strat c 8 in
  let n = match i with
    | 0 -> (1 lsl 32) + range c 0 5000 | 1 -> (1 lsl 31) + range c 0 5000
    | 2 -> (1 lsl 26) + range c 0 4000 - 2000 | 3 -> range c (1 lsl 26) (1 lsl 28)
    | 4 -> (1 lsl range c 20 27) + range c 0 2 - 1 | 5 -> 1024 * range c 60000 70000 | _ -> range c 100_000 30_000_000 in
  let piece = match draw c 3 with 0 -> n | 1 -> 1 lsl range c 14 22 | 2 -> 1024 * range c 16 3000 + range c 0 2 - 1 | _ -> range c 10000 3_000_000 in
  note c "blake3" (sp "len=%d keyed=%b pieces of %d" n (key <> "") piece);
  let b = Hs.sparse_alloc n in
  let e = expand (draw c 0xFFFFFF) 3000 in
  let put p = Bytes.blit_string e 0 b p (min 3000 (n - p)) in
  put 0; put (max 0 (n - 3000));
  for _ = 1 to 40 do put (range c 0 (n - 1)) done;
  let exp = Hs.blake3 key b n in
  heartbeat ();
  let o = if key = "" then C.Hash.blake3_256 () else C.MAC.blake3_256 key in
  let pos = ref 0 in
  while !pos < n do let k = min piece (n - !pos) in o#add_substring b !pos k; heartbeat (); pos := !pos + k done;
  let got = o#result in
  Hs.sparse_free b;
  check_eq "blake3 digest" exp got;
  nontrivial c

(* huge messages: the second oracle is Python's hashlib *)
let py_hash alg pattern reps tail =
  let f = Filename.temp_file "pbt" ".pat" in
  let oc = open_out_bin f in output_string oc pattern; close_out oc;
  let mk = match alg with
    | "blake2s" -> "hashlib.blake2s()" | "blake2b" -> "hashlib.blake2b()"
    | a -> Printf.sprintf "hashlib.new('%s')" a in
  let ic = Unix.open_process_in (Printf.sprintf
    "python3 -c \"import hashlib,sys
p=open('%s','rb').read()
h=%s
for i in range(%d): h.update(p)
h.update(p[:%d])
print(h.hexdigest())\" 2>/dev/null" f mk reps tail) in
  let r = try input_line ic with End_of_file -> "" in
  ignore (Unix.close_process_in ic);
  Sys.remove f;
  if r = "" then None else Some r
let huge = [|
  ("sha1", (fun () -> C.Hash.sha1 ()), Some Refs.sha1_p); ("sha224", (fun () -> C.Hash.sha224 ()), Some Refs.sha224_p);
  ("sha256", (fun () -> C.Hash.sha256 ()), Some Refs.sha256_p); ("md5", (fun () -> C.Hash.md5 ()), Some Refs.md5_p);
  ("sha384", (fun () -> C.Hash.sha384 ()), Some Refs.sha384_p); ("sha512", (fun () -> C.Hash.sha512 ()), Some Refs.sha512_p);
  ("blake2s", (fun () -> C.Hash.blake2s256 ()), None); ("blake2b", (fun () -> C.Hash.blake2b512 ()), None);
  ("ripemd160", (fun () -> C.Hash.ripemd160 ()), Some Refs.ripemd160_p);
  ("sha3_256", (fun () -> C.Hash.sha3 256), None) |]
let c07_huge limit_pow c =
  let (alg, mk, rf) = huge.(strat c (Array.length huge)) in
  let base = match limit_pow with
    | `P29 -> 1 lsl 29
    | `P32 -> 1 lsl 32 in
  let delta = match weighted c [ (2, `Near); (2, `Mid); (1, `Exact) ] with
    | `Near -> range c 0 200 - 100 | `Mid -> range c 0 (8 * 1024 * 1024) | `Exact -> 0 in
  let total = base + delta in
  let plen = 65536 * range c 1 8 + range c 0 3 in
  let pattern = expand (draw c 0xFFFFFF) plen in
  let reps = total / plen and tail = total mod plen in
  note c "huge" (sp "%s total=%d piece=%d" alg total plen);
  let expected =
    match py_hash alg pattern reps tail, rf with
    | Some h, _ -> h
    | None, Some rf -> hex (rf (fun feed -> for _ = 1 to reps do feed pattern done; feed (String.sub pattern 0 tail)))
    | None, None -> "" in
  if expected <> "" then begin
    let o = mk () in
    let b = Bytes.unsafe_of_string pattern in
    (* some pieces are large: the whole bit count of one piece must also be right *)
    for _ = 1 to reps do o#add_substring b 0 plen done;
    o#add_substring b 0 tail;
    check_eq (sp "%s of %d bytes" alg total) expected (hex o#result);
    nontrivial c
  end
(* one single piece of more than 512 MB *)
let c07_huge_piece c =
  let (alg, mk, _) = huge.(strat c (Array.length huge)) in
  let total = (1 lsl 29) + range c 0 1000 in
  let pattern = expand (draw c 0xFFFFFF) 65536 in
  let reps = total / 65536 and tail = total mod 65536 in
  note c "huge" (sp "%s one piece of %d" alg total);
  match py_hash alg pattern reps tail with
  | None -> ()
  | Some e ->
    let b = Bytes.create total in
    for i = 0 to reps - 1 do Bytes.blit_string pattern 0 b (65536 * i) 65536 done;
    Bytes.blit_string pattern 0 b (65536 * reps) tail;
    let o = mk () in
    o#add_substring b 0 total;
    check_eq (sp "%s of one piece of %d bytes" alg total) e (hex o#result);
    nontrivial c

let c08 c =
  let k = strat c (Array.length mac_kinds) in
  let (nm, g) = mac_kinds.(k) in
  label c nm;
  let h = g c in
  let n = match weighted c [ (3, `D); (3, `L) ] with
    | `D -> strat_at c (Array.length mac_kinds) (5 * h.h_block + 3)
    | `L -> length ~dense:100 ~block:h.h_block ~max:1200 c in
  let m = msg_for c h n in
  note c "mac" h.h_desc; noteb c "msg" m;
  let o = h.h_make () in
  ignore (feed_all ~block:h.h_block c (feeder_h o) m);
  check_eq (h.h_desc ^ " tag") (h.h_ref m) o#result;
  (* incomplete block without padding *)
  if h.h_unit > 1 then begin
    let m' = bytes_n c (h.h_unit * range c 0 3 + range c 1 (h.h_unit - 1)) in
    expect_error "CBC-MAC without padding on an incomplete block" C.Wrong_data_length (fun () -> C.hash_string (h.h_make ()) m')
  end;
  nontrivial c

(* tags of messages whose length needs more than 32 bits (in bits for the
   HMACs, in bytes for BLAKE2s) *)
(* messages given in large pieces *)
let c08_long c =
  let h = snd mac_kinds.(strat c (Array.length mac_kinds)) c in
  let n = match draw c 3 with 0 -> range c 3000 20_000 | 1 -> range c 32_700 40_000 | _ -> range c 65_500 (if c.tier = Quick then 90_000 else 200_000) in
  hash_vs_ref h c n

let c08_huge c =
  let i = strat c 7 in
  let key = bytes_n c (if i < 5 then range c 1 32 else 32) in
  let (alg, py, o) : string * string * C.hash = match i with
    | 0 -> ("blake2s", "hashlib.blake2s(key=K)", C.MAC.blake2s256 key)
    | 1 -> ("hmac_sha256", "hmac.new(K,digestmod='sha256')", C.MAC.hmac_sha256 key)
    | 2 -> ("hmac_sha1", "hmac.new(K,digestmod='sha1')", C.MAC.hmac_sha1 key)
    | 3 -> ("hmac_md5", "hmac.new(K,digestmod='md5')", C.MAC.hmac_md5 key)
    | 4 -> ("hmac_sha512", "hmac.new(K,digestmod='sha512')", C.MAC.hmac_sha512 key)
    | 5 -> ("blake2b", "hashlib.blake2b(key=K)", C.MAC.blake2b512 key)
    | _ -> ("blake3", "", C.MAC.blake3_256 key) in
  let base = if i = 0 || i >= 5 then 1 lsl 32 else 1 lsl 29 in
  let total = base + range c 0 400 - 200 in
  let plen = 65536 * range c 1 8 + range c 0 3 in
  let pattern = expand (draw c 0xFFFFFF) plen in
  let reps = total / plen and tail = total mod plen in
  note c "huge" (sp "%s key=%s total=%d piece=%d" alg (show key) total plen);
  let expected =
    if py = "" then begin
      let b = Hs.sparse_alloc total in
      for i = 0 to reps - 1 do if i land 1023 < 3 then Bytes.blit_string pattern 0 b (plen * i) plen done;
      let pos = ref 0 in
      while !pos < total do let k = min plen (total - !pos) in o#add_substring b !pos k; if !pos land 0xFFFFF = 0 then heartbeat (); pos := !pos + k done;
      heartbeat ();
      let e = hex (Hs.blake3 key b total) in
      Hs.sparse_free b; Some e
    end else begin
      let f = Filename.temp_file "pbt" ".pat" in
      let oc = open_out_bin f in output_string oc pattern; close_out oc;
      let ic = Unix.open_process_in (Printf.sprintf
        "python3 -c \"import hashlib,hmac
K=bytes.fromhex('%s')
p=open('%s','rb').read()
h=%s
for i in range(%d): h.update(p)
h.update(p[:%d])
print(h.hexdigest())\" 2>/dev/null" (hex key) f py reps tail) in
      let r = try Some (input_line ic) with End_of_file -> None in
      ignore (Unix.close_process_in ic); Sys.remove f;
      let b = Bytes.unsafe_of_string pattern in
      for i = 1 to reps do o#add_substring b 0 plen; if i land 255 = 0 then heartbeat () done;
      o#add_substring b 0 tail;
      r
    end in
  match expected with
  | None -> ()
  | Some e -> check_eq (sp "%s of %d bytes" alg total) e (hex o#result); nontrivial c

(* ============================ C09 ============================ *)
let feed_auth ?(block = 16) c (t : C.authenticated_transform) data =
  let out = Buffer.create (String.length data + 16) in
  let f = feeder_a t in
  let pos = ref 0 in
  List.iter (fun n ->
    feed_piece c f (String.sub data !pos n); pos := !pos + n;
    if chance c 1 3 then begin
      let av = t#available_output in
      let s = if bool c then t#get_string else (let (b, p, n) = t#get_substring in Bytes.sub_string b p n) in
      check_int "available_output" av (String.length s);
      Buffer.add_string out s
    end) (chunks ~block c (String.length data));
  let tag = t#finish_and_get_tag in
  Buffer.add_string out t#get_string;
  (Buffer.contents out, tag)

let c09 c =
  let a = if strat c 2 = 0 then a_gcm c else a_chapoly c in
  let n = length ~dense:140 ~block:16 ~max:1500 c in
  let m = bytes_n c n in
  note c "aead" a.a_desc; noteb c "msg" m; label c a.a_kind;
  let (ct, tag) = a.a_ref m in
  let e = a.a_make true in
  check_int "tag_size" 16 e#tag_size;
  let (ct', tag') = feed_auth ~block:a.a_block c e m in
  check_eq "ciphertext" ct ct'; check_eq "tag" tag tag';
  let (m', tag'') = feed_auth ~block:a.a_block c (a.a_make false) ct in
  check_eq "decrypted message" m m'; check_eq "tag computed in decryption" tag tag'';
  check_eq "auth_transform_string" (ct ^ tag) (C.auth_transform_string (a.a_make true) m);
  let (x, y) = C.auth_transform_string_detached (a.a_make true) m in
  check_eq "auth_transform_string_detached text" ct x; check_eq "auth_transform_string_detached tag" tag y;
  if n > 0 then nontrivial c

(* every message length with every header length; every cut of the message *)
let c09_pairs c =
  let gcm = strat c 2 = 0 in
  let hl = strat c 84 in
  let key = bytes_n c (if gcm then pick c [| 16; 24; 32 |] else pick c [| 16; 32 |]) in
  let iv = bytes_n c (if gcm then (match draw c 2 with 0 -> 12 | 1 -> range c 1 70 | _ -> 16 * range c 1 4) else pick c [| 8; 12 |]) in
  let header = bytes_n c hl in
  let whole = bytes_n c 84 in
  note c "aead" (sp "%s key=%s iv=%s header=%s" (if gcm then "aes_gcm" else "chapoly") (show key) (show iv) (show header)); noteb c "msg" whole;
  let mk d = if gcm then C.AEAD.aes_gcm ~header ~iv key d else C.AEAD.chacha20_poly1305 ~header ~iv key d in
  let buf = Bytes.of_string whole in
  for n = 0 to 84 do
    let m = String.sub whole 0 n in
    let (ct, tag) = if gcm then Refs.gcm_encrypt key iv header m else Refs.chapoly_encrypt key iv header m in
    let k = if n = 0 then 0 else draw c n in
    let t = mk C.AEAD.Encrypt in
    t#put_substring buf 0 k; t#put_substring buf k (n - k);
    let tag' = t#finish_and_get_tag in
    check_eq (sp "tag, %d+%d bytes" k (n - k)) tag tag';
    check_eq (sp "ciphertext, %d+%d bytes" k (n - k)) ct t#get_string;
    (match C.auth_check_transform_string (mk C.AEAD.Decrypt) (ct ^ tag) with
     | Some m' -> check_eq (sp "decryption, %d bytes" n) m m'
     | None -> failf "the reference ciphertext of %d bytes is rejected" n)
  done;
  nontrivial c

(* GCM with a crafted IV such that the counter block is about to wrap *)
let gcm_wrap_case c =
  let key = bytes_n c (pick c [| 16; 24; 32 |]) in
  let aes = Refs.Aes.enc key in
  let h = Refs.Gf.of_s (aes (String.make 16 '\000')) 0 in
  let target = bytes_n c 12 ^ (let b = Bytes.create 4 in Refs.put_be32 b 0 (0xFFFFFFFF - range c 0 8); Bytes.to_string b) in
  (* J0 = GHASH(iv || len) = ((iv * H) + len) * H for a 16-byte IV *)
  let len = Refs.Gf.of_s (String.make 8 '\000' ^ Refs.be64 128) 0 in
  let hinv = Refs.Gf.inv h in
  let iv = Refs.Gf.to_s (Refs.Gf.mul (Refs.Gf.xor (Refs.Gf.mul (Refs.Gf.of_s target 0) hinv) len) hinv) in
  if not (String.equal (Refs.gcm_j0 aes iv) target) then failf "harness: IV construction";
  let header = bytes_n c (range c 0 40) in
  let m = bytes_n c (range c 0 300) in
  (key, iv, target, header, m)
let c09_wrap c =
  let (key, iv, target, header, m) = gcm_wrap_case c in
  note c "aead" (sp "aes_gcm key=%s iv=%s j0=%s header=%s" (show key) (hex iv) (hex target) (show header)); noteb c "msg" m;
  let (ct, tag) = Refs.gcm_encrypt key iv header m in
  let (ct', tag') = feed_auth c (C.AEAD.aes_gcm ~header ~iv key C.AEAD.Encrypt) m in
  check_eq "ciphertext (counter wraps)" ct ct'; check_eq "tag (counter wraps)" tag tag';
  let (m', tag'') = feed_auth c (C.AEAD.aes_gcm ~header ~iv key C.AEAD.Decrypt) ct in
  check_eq "decryption (counter wraps)" m m'; check_eq "tag in decryption (counter wraps)" tag tag'';
  nontrivial c

(* long messages and headers *)
let c09_long c =
  let gcm = strat c 2 = 0 in
  let key = bytes_n c (if gcm then pick c [| 16; 24; 32 |] else pick c [| 16; 32 |]) in
  let iv = if gcm then bytes_n c (match draw c 2 with 0 -> 12 | 1 -> range c 1 40 | _ -> range c 100 5000) else bytes_n c (pick c [| 8; 12 |]) in
  let hl = match draw c 3 with 0 -> 0 | 1 -> range c 1 100 | 2 -> range c 1000 9000 | _ -> range c 8000 70000 in
  let header = expand (draw c 0xFFFFFF) hl in
  let n = if chance c 1 3 then range c 65_500 90_000 else range c 2000 (if c.tier = Quick then 40_000 else 200_000) in
  let m = expand (draw c 0xFFFFFF) n in
  note c "aead" (sp "%s iv=%d header=%d msg=%d" (if gcm then "aes_gcm" else "chapoly") (String.length iv) hl n);
  let mk d = if gcm then C.AEAD.aes_gcm ~header ~iv key d else C.AEAD.chacha20_poly1305 ~header ~iv key d in
  let (ct, tag) = if gcm then Refs.gcm_encrypt key iv header m else Refs.chapoly_encrypt key iv header m in
  let (ct', tag') = feed_auth ~block:64 c (mk C.AEAD.Encrypt) m in
  check_eq "ciphertext" ct ct'; check_eq "tag" tag tag';
  let (m', tag'') = feed_auth ~block:64 c (mk C.AEAD.Decrypt) ct in
  check_eq "decrypted message" m m'; check_eq "tag computed in decryption" tag tag'';
  nontrivial c

(* associated data, messages and IVs so long that their bit (GCM) or byte
   (Poly1305) length needs more than 32 bits.  The data is zeros but for its
   ends, so that the reference can use powers of the hash key *)
let c09_huge c =
  let kind = strat c 5 in
  let gcm = kind < 3 in
  let key = bytes_n c (if gcm then pick c [| 16; 24; 32 |] else pick c [| 16; 32 |]) in
  let base = if not gcm || (c.tier = Thorough && bool c) then 1 lsl 28 else 1 lsl 25 in      (* blocks of 16 *)
  let zb = base + range c 0 1000 in
  let head = bytes_n c (16 * range c 0 5) and tail = bytes_n c (range c 0 40) in
  let runs = [ Refs.Str head; Refs.Zeros zb; Refs.Str tail ] in
  let total = Refs.run_len runs in
  let big () =
    let b = Hs.sparse_alloc total in
    Bytes.blit_string head 0 b 0 (String.length head);
    Bytes.blit_string tail 0 b (total - String.length tail) (String.length tail);
    b in
  let small = bytes_n c (range c 0 50) in
  let iv = bytes_n c (if gcm then 12 else pick c [| 8; 12 |]) in
  note c "aead" (sp "%s: %s of %d bytes, key=%s iv=%s small=%s" (if gcm then "aes_gcm" else "chacha20_poly1305")
    (match kind with 0 | 3 -> "message" | 2 -> "iv" | _ -> "header") total (show key) (show iv) (show small));
  let aes = if gcm then Refs.Aes.enc key else fun s -> s in
  let mk ~header ~iv d = if gcm then C.AEAD.aes_gcm ~header ~iv key d else C.AEAD.chacha20_poly1305 ~header ~iv key d in
  (match kind with
   | 0 | 3 ->
     (* decryption, so that the data authenticated is the sparse one *)
     let j0 = if gcm then Refs.gcm_j0 aes iv else "" in
     let ks pos l =
       if gcm then begin
         let c0 = Refs.be32 j0 12 in
         String.init l (fun i -> let p = pos + i in
           let blk = Bytes.of_string j0 in
           Refs.put_be32 blk 12 ((c0 + 1 + p / 16) land 0xFFFFFFFF);
           (aes (Bytes.to_string blk)).[p land 15])
       end else String.sub (Refs.Chacha.stream key iv (Int64.of_int (1 + pos / 64)) (l + 64)) (pos land 63) l in
     let o = mk ~header:small ~iv C.AEAD.Decrypt in
     let piece = range c (1 lsl 19) (1 lsl 21) in
     let z = String.make piece '\000' in
     o#put_string head;
     let out = ref (if head = "" then "" else o#get_string) in
     let probe = range c 0 (16 * zb / piece) in
     let left = ref (16 * zb) and k = ref 0 and pos = ref (String.length head) in
     check_eq "plaintext of the head" (String.sub (Refs.xor_str head (ks 0 (String.length head))) 0 (String.length !out)) !out;
     let opos = ref (String.length !out) in
     while !left > 0 do
       let n = min !left piece in
       o#put_substring (Bytes.unsafe_of_string z) 0 n;
       let s = o#get_string in
       if !k = probe && String.length s > 200 then begin
         let q = String.length s - 100 in
         if !opos + q >= String.length head then check_eq (sp "plaintext at %d" (!opos + q)) (ks (!opos + q) 100) (String.sub s q 100)
       end;
       opos := !opos + String.length s;
       left := !left - n; pos := !pos + n; incr k; heartbeat ()
     done;
     o#put_string tail;
     let tag = o#finish_and_get_tag in
     let s = o#get_string in
     check_int "length of the output" total (!opos + String.length s);
     let l = String.length tail in
     if String.length s >= l then
       check_eq "plaintext of the tail" (Refs.xor_str tail (ks (total - l) l)) (String.sub s (String.length s - l) l);
     let exp = if gcm then Refs.gcm_tag_runs aes j0 [ Refs.Str small ] runs else Refs.chapoly_tag_runs key iv [ Refs.Str small ] runs in
     check_eq "tag" exp tag
   | 2 ->
     let b = big () in
     let (ct, tag) =
       (match
         let o = mk ~header:small ~iv:(Bytes.unsafe_to_string b) C.AEAD.Encrypt in
         o#put_string small;
         let tag = o#finish_and_get_tag in (o#get_string, tag)
       with r -> Hs.sparse_free b; r | exception e -> Hs.sparse_free b; raise e) in
     let j0 = Refs.gcm_j0_runs aes runs in
     let ct' = Refs.gcm_ctr aes j0 small in
     check_eq "ciphertext" ct' ct;
     check_eq "tag" (Refs.gcm_tag aes j0 small ct') tag
   | _ ->
     let b = big () in
     let (ct, tag) =
       (match
         let o = mk ~header:(Bytes.unsafe_to_string b) ~iv C.AEAD.Encrypt in
         o#put_string small;
         let tag = o#finish_and_get_tag in (o#get_string, tag)
       with r -> Hs.sparse_free b; r | exception e -> Hs.sparse_free b; raise e) in
     if gcm then begin
       let j0 = Refs.gcm_j0 aes iv in
       let ct' = Refs.gcm_ctr aes j0 small in
       check_eq "ciphertext" ct' ct;
       check_eq "tag" (Refs.gcm_tag_runs aes j0 runs [ Refs.Str ct' ]) tag
     end else begin
       let ct' = Refs.xor_str small (Refs.Chacha.stream key iv 1L (String.length small)) in
       check_eq "ciphertext" ct' ct;
       check_eq "tag" (Refs.chapoly_tag_runs key iv runs [ Refs.Str ct' ]) tag
     end);
  nontrivial c

(* Poly1305 extreme arithmetic: ciphertext chosen so that the accumulator
   meets all-ones blocks *)
let poly_edge_case c =
  let key = bytes_n c 32 and iv = bytes_n c 12 in
  let n = range c 1 200 in
  (* the decryptor authenticates what it is given: we choose the ciphertext *)
  let ct = match draw c 3 with
    | 0 -> String.make n '\255' | 1 -> String.make n '\000'
    | 2 -> String.init n (fun i -> if i land 15 = 15 then '\255' else if (i lsr 4) land 1 = 0 then '\255' else '\000')
    | _ -> let s = expand (draw c 0xFFFFFF) n in String.mapi (fun i ch -> if Char.code s.[(i * 7) mod n] land 3 = 0 then ch else '\255') s in
  let header = if bool c then String.make (range c 0 40) '\255' else bytes_n c (range c 0 40) in
  note c "case" (sp "key=%s iv=%s header=%s ct=%s" (show key) (show iv) (show header) (show ct));
  (key, iv, header, ct)
let c09_poly_edge c =
  let (key, iv, header, ct) = poly_edge_case c in
  let (_, tag) = feed_auth c (C.AEAD.chacha20_poly1305 ~header ~iv key C.AEAD.Decrypt) ct in
  check_eq "poly1305 tag" (Refs.chapoly_tag key iv header ct) tag;
  nontrivial c

(* Poly1305 final reduction: accumulators at the edge of the modulus p = 2^130 - 5.
   For a given one-time key r, the last block is the lengths block, so we solve
   for the ciphertext block before it. *)
let poly_carry_case c =
  let key = bytes_n c (pick c [| 16; 32 |]) and iv = bytes_n c 12 in
  let otk = String.sub (Refs.Chacha.block_at key iv 0L) 0 32 in
  let p = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5) in
  let r = Z.logand (Refs.z_of_le (String.sub otk 0 16)) (Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff") in
  if Z.equal r Z.zero then None else begin
    let rinv = Z.invert r p in
    (* target accumulator after the lengths block *)
    let k = range c 0 12 in
    let near e = Z.add (Z.shift_left Z.one e) (Z.of_int (k - 6)) in
    let target = match weighted c [ (3, `Low); (3, `High); (1, `Mid); (2, `LowWide); (2, `Pow); (2, `PPow); (3, `Pad) ] with
      | `Low -> Z.of_int k | `High -> Z.sub p (Z.of_int (k + 1))
      | `Mid -> Z.sub (Z.shift_left Z.one (range c 120 129)) (Z.of_int k)
      | `LowWide -> Z.of_int (draw c ((1 lsl range c 4 52) - 1))
      | `Pow -> near (range c 3 129) | `PPow -> Z.sub p (near (range c 3 128))
      | `Pad ->
        (* the sum with the second half of the one-time key carries far *)
        let s = Refs.z_of_le (String.sub otk 16 16) in
        Z.erem (Z.sub (near (pick c [| 32; 44; 52; 64; 78; 88; 96; 104; 128; 128; 128 |])) s) (Z.shift_left Z.one 128) in
    let target = Z.erem target p in
    let blocks = range c 2 4 in
    let n = 16 * blocks in
    let lens = Refs.z_of_le (Refs.le64 0 ^ Refs.le64 n ^ "\001") in
    (* acc_end = (acc1 + lens) * r ; acc1 = (acc0 + b2) * r *)
    let acc1 = Z.erem (Z.sub (Z.erem (Z.mul target rinv) p) lens) p in
    let want = Z.erem (Z.mul acc1 rinv) p in          (* = acc0 + b_last *)
    (* search the earlier blocks so that b_last has bit 128 set and fits *)
    let seed = draw c 0xFFFFFF in
    let rec go t =
      if t > 60 then None else begin
        let first = expand (seed + t) (n - 16) in
        let acc0 = ref Z.zero in
        for i = 0 to blocks - 2 do
          acc0 := Z.erem (Z.mul (Z.add !acc0 (Refs.z_of_le (String.sub first (16 * i) 16 ^ "\001"))) r) p
        done;
        let b = Z.erem (Z.sub want !acc0) p in
        let two128 = Z.shift_left Z.one 128 in
        if Z.geq b two128 && Z.lt b (Z.shift_left two128 1) then Some (first ^ Refs.z_to_le 16 (Z.sub b two128)) else go (t + 1)
      end in
    match go 0 with
    | None -> None
    | Some ct ->
      note c "case" (sp "key=%s iv=%s ct=%s target=%s" (show key) (show iv) (show ct) (Z.to_string target));
      Some (key, iv, ct)
  end
let c09_poly_carry c =
  match poly_carry_case c with
  | None -> ()
  | Some (key, iv, ct) ->
      let (_, tag) = feed_auth c (C.AEAD.chacha20_poly1305 ~iv key C.AEAD.Decrypt) ct in
      check_eq "poly1305 tag at the edge of the modulus" (Refs.chapoly_tag key iv "" ct) tag;
      nontrivial c

(* ============================ C10 ============================ *)
type auth_case = { mk_e : unit -> C.authenticated_transform; mk_d : unit -> C.authenticated_transform;
  vary : (string * (unit -> C.authenticated_transform)) list; (* decryptors differing in key, iv, header *)
  adesc : string; aunit : int; whole_ct : bool }
let mutate c s =
  (* a string of the same length, different *)
  let n = String.length s in
  let b = Bytes.of_string s in
  (match weighted c [ (4, `Bit); (2, `Byte); (1, `Swap); (1, `Many) ] with
   | `Bit -> let i = draw c (n - 1) in Bytes.set b i (Char.chr (Char.code s.[i] lxor (1 lsl draw c 7)))
   | `Byte -> let i = draw c (n - 1) in Bytes.set b i (Char.chr ((Char.code s.[i] + 1 + draw c 254) land 255))
   | `Swap -> let i = draw c (n - 1) and j = draw c (n - 1) in
     let x = Bytes.get b i in Bytes.set b i (Bytes.get b j); Bytes.set b j x
   | `Many -> for _ = 1 to 3 do let i = draw c (n - 1) in Bytes.set b i (Char.chr (draw c 255)) done);
  let r = Bytes.to_string b in
  if r = s then (let b = Bytes.of_string s in Bytes.set b (n - 1) (Char.chr (Char.code s.[n - 1] lxor 1)); Bytes.to_string b) else r
let alter_str c s = match weighted c [ ((if s = "" then 0 else 4), `M); (1, `Ext); ((if s = "" then 0 else 1), `Cut); (1, `Z) ] with
  | `M -> mutate c s | `Ext -> s ^ bytes_n c (range c 1 5) | `Cut -> String.sub s 0 (draw c (String.length s - 1)) | `Z -> s ^ "\000"
let auth_case c =
  match strat c 4 with
  | 0 | 1 as w ->
    let gcm = w = 0 in
    let key = bytes_n c (if gcm then pick c [| 16; 24; 32 |] else pick c [| 16; 32 |]) in
    let iv = if gcm then gcm_iv c else bytes_n c (pick c [| 8; 12 |]) in
    let header = bytes_n c (range c 0 50) in
    let mk key iv header d = if gcm then C.AEAD.aes_gcm ~header ~iv key d else C.AEAD.chacha20_poly1305 ~header ~iv key d in
    let key2 = mutate c key in
    let iv2 = if iv = "" then "\001" else mutate c iv in
    let header2 = alter_str c header in
    { mk_e = (fun () -> mk key iv header C.AEAD.Encrypt); mk_d = (fun () -> mk key iv header C.AEAD.Decrypt);
      vary = [ ("key", fun () -> mk key2 iv header C.AEAD.Decrypt); ("iv", fun () -> mk key iv2 header C.AEAD.Decrypt);
               ("header", fun () -> mk key iv header2 C.AEAD.Decrypt) ];
      adesc = sp "%s key=%s iv=%s header=%s" (if gcm then "aes_gcm" else "chacha20_poly1305") (show key) (show iv) (show header);
      aunit = 1; whole_ct = true }
  | w ->
    (* encrypt-then-mac: transform_then_hash on encryption, transform_and_hash on decryption;
       mac-and-encrypt the other way round *)
    let ckey = bytes_n c (pick c [| 16; 32 |]) and mkey = bytes_n c (pick c [| 16; 32 |]) in
    let iv = bytes_n c 16 in
    let macs = [| ("hmac_sha256", fun k -> C.MAC.hmac_sha256 k); ("siphash", fun k -> C.MAC.siphash (String.sub k 0 16)); ("aes_cmac", fun k -> C.MAC.aes_cmac k);
      ("hmac_sha1", fun k -> C.MAC.hmac_sha1 k); ("hmac_ripemd160", fun k -> C.MAC.hmac_ripemd160 k); ("blake2b", fun k -> C.MAC.blake2b 224 k);
      ("hmac_sha512", fun k -> C.MAC.hmac_sha512 k); ("hmac_sha384", fun k -> C.MAC.hmac_sha384 k); ("blake2b512", fun k -> C.MAC.blake2b512 k);
      ("blake2s", fun k -> C.MAC.blake2s 256 k); ("blake3_512", fun k -> C.MAC.blake3 512 (Refs.sha256 k)); ("blake3_2400", fun k -> C.MAC.blake3 2400 (Refs.sha256 k)) |] in
    let (mn, mac) = pick c macs in
    let stream = bool c in
    let tr ckey iv e = let d = if e then C.Cipher.Encrypt else C.Cipher.Decrypt in
      if stream then C.Cipher.chacha20 ~iv:(String.sub iv 0 8) ckey d
      else C.Cipher.aes ~mode:C.Cipher.CTR ~iv ckey d in
    let mkey2 = (let b = Bytes.of_string mkey in Bytes.set b 0 (Char.chr (Char.code mkey.[0] lxor (1 + draw c 254))); Bytes.to_string b) in
    let etm = w = 2 in
    let mk ckey iv mkey e =
      if etm = e then C.transform_then_hash (tr ckey iv e) (mac mkey)
      else C.transform_and_hash (tr ckey iv e) (mac mkey) in
    { mk_e = (fun () -> mk ckey iv mkey true); mk_d = (fun () -> mk ckey iv mkey false);
      vary = [ ("mac key", fun () -> mk ckey iv mkey2 false) ];
      adesc = sp "%s %s+%s key=%s" (if etm then "encrypt-then-mac" else "encrypt-and-mac") (if stream then "chacha20" else "aes-ctr") mn (show ckey);
      aunit = (if stream then 1 else 16); whole_ct = true }

let c10 c =
  let a = auth_case c in
  let n = length ~dense:80 ~block:16 ~max:500 c in
  let m = bytes_n c (n / a.aunit * a.aunit) in
  note c "auth" a.adesc; noteb c "msg" m;
  let s = C.auth_transform_string (a.mk_e ()) m in
  let ts = (a.mk_e ())#tag_size in
  check_int "output length" (String.length m + ts) (String.length s);
  (match C.auth_check_transform_string (a.mk_d ()) s with
   | Some r -> check_eq "authenticated decryption" m r
   | None -> failf "authentic data rejected"
   | exception e -> failf "authentic data: %s" (exn_name e));
  let reject what mk x =
    match C.auth_check_transform_string (mk ()) x with
    | None -> ()
    | Some r -> failf "%s altered, but accepted: returned %s" what (show r)
    | exception e -> failf "%s altered: raises %s instead of returning None" what (exn_name e) in
  for _ = 1 to 6 do
    match weighted c [ (4, `Any); (4, `Tag); (2, `Cut); (2, `Ext); (2, `Param); (1, `Front); (1, `TagCrop) ] with
    | `Any -> reject "ciphertext or tag" a.mk_d (mutate c s)
    | `Tag ->
      let t = mutate c (String.sub s (String.length s - ts) ts) in
      reject "tag" a.mk_d (String.sub s 0 (String.length s - ts) ^ t)
    | `Cut when String.length s - ts >= a.aunit ->
      let k = a.aunit * range c 1 ((String.length s - ts) / a.aunit) in
      (* cut in the middle of the ciphertext or at the very end *)
      let cut_at = if bool c then String.length s - k else a.aunit * draw c ((String.length s - ts - k) / a.aunit) in
      reject "length" a.mk_d (String.sub s 0 cut_at ^ String.sub s (cut_at + k) (String.length s - cut_at - k))
    | `Cut | `Ext ->
      let x = bytes_n c (a.aunit * range c 1 3) in
      reject "length" a.mk_d (if bool c then s ^ x else x ^ s)
    | `Front -> reject "length" a.mk_d (String.make a.aunit '\000' ^ s)
    | `TagCrop -> reject "last tag bit" a.mk_d (String.sub s 0 (String.length s - 1) ^ String.make 1 (Char.chr (Char.code s.[String.length s - 1] lxor 128)))
    | `Param -> let (what, mk) = pickl c a.vary in reject what mk s
  done;
  (* too short *)
  let k = range c 0 (ts - 1) in
  expect_error "input shorter than the tag" C.Wrong_data_length (fun () -> C.auth_check_transform_string (a.mk_d ()) (bytes_n c k));
  nontrivial c

(* long messages: single bits anywhere *)
let c10_long c =
  let a = auth_case c in
  let n = match draw c 3 with 0 -> range c 1000 5000 | 1 -> range c 20_000 40_000 | _ -> range c 60_000 200_000 in
  let m = expand (draw c 0xFFFFFF) (n / a.aunit * a.aunit) in
  note c "auth" a.adesc; note c "msg" (sp "%d bytes" n);
  let s = C.auth_transform_string (a.mk_e ()) m in
  (match C.auth_check_transform_string (a.mk_d ()) s with
   | Some r -> check_eq "authenticated decryption" m r
   | None -> failf "authentic data rejected"
   | exception e -> failf "authentic data: %s" (exn_name e));
  let l = String.length s in
  for _ = 1 to 6 do
    let b = Bytes.of_string s in
    let i = match draw c 3 with 0 -> l - 1 - draw c (min 60 (l - 1)) | 1 -> draw c 40 | _ -> draw c (l - 1) in
    Bytes.set b i (Char.chr (Char.code s.[i] lxor (1 lsl draw c 7)));
    match C.auth_check_transform_string (a.mk_d ()) (Bytes.to_string b) with
    | None -> ()
    | Some _ -> failf "byte %d of %d altered, but accepted" i l
    | exception e -> failf "byte %d of %d altered: raises %s" i l (exn_name e)
  done;
  nontrivial c

(* every single bit of one authenticated message *)
let c10_allbits c =
  let a = auth_case c in
  let m = bytes_n c (a.aunit * range c 0 2) in
  note c "auth" a.adesc; noteb c "msg" m;
  let s = C.auth_transform_string (a.mk_e ()) m in
  for i = 0 to 8 * String.length s - 1 do
    let b = Bytes.of_string s in
    Bytes.set b (i / 8) (Char.chr (Char.code s.[i / 8] lxor (1 lsl (i land 7))));
    match C.auth_check_transform_string (a.mk_d ()) (Bytes.to_string b) with
    | None -> ()
    | Some _ -> failf "bit %d of byte %d flipped (of %d), accepted" (i land 7) (i / 8) (String.length s)
    | exception e -> failf "bit %d flipped: raises %s" i (exn_name e)
  done;
  nontrivial c

let register () =
  sub "C01" "block" 6000 c01;
  sub "C01" "inverse" 1500 c01_inverse;
  sub "C02" "modes" 7000 c02_modes;
  sub "C02" "iv" 1500 c02_iv;
  sub "C02" "carry" 6000 c02_carry;
  sub "C02" "raw" 6000 c02_raw;
  sub "C02" "exhaust1" 300 (c02_exhaust 1);
  sub "C02" "exhaust2" 24 ~thorough:200 (c02_exhaust 2);
  sub "C02" "exhaust3" 8 ~thorough:32 ~cpu_limit:300. (c02_exhaust 3);
  sub "C02" "exhaust4" 1 ~thorough:2 ~cpu_limit:900. ~only:[ "hw" ] c02_exhaust4;
  sub "C02" "exhaust_cipher" 200 c02_exhaust_cipher;
  sub "C03" "transform" 5000 c03_transform;
  sub "C03" "raw" 4000 c03_raw;
  sub "C03" "pairs" (3 * 66) c03_pairs;
  sub "C03" "long" 64 ~cpu_limit:200. c03_long;
  sub "C03" "hugepiece" 2 ~thorough:4 ~cpu_limit:600. ~only:[ "hw" ] c03_hugepiece;
  sub "C04" "scheme" 20000 c04_scheme;
  sub "C04" "cipher" 6000 c04_cipher;
  sub "C05" "history" 12000 c05;
  sub "C05" "buffer" 3000 c05_buffer;
  sub "C06" "pieces" 14000 c06;
  sub "C06" "split" 2000 c06_split;
  sub "C06" "pairs" (10 * Array.length all_hash_kinds) c06_pairs;
  sub "C06" "bigpiece" 10 ~thorough:(Array.length all_hash_kinds) ~cpu_limit:900. ~only:[ "hw" ] c06_bigpiece;
  sub "C07" "digest" 12800 c07;
  sub "C07" "long" 480 ~thorough:6000 c07_long;
  sub "C07" "blake3" 800 ~thorough:8000 c07_blake3;
  sub "C07" "blake3_long" 8 ~thorough:80 ~cpu_limit:600. ~only:[ "hw" ] c07_blake3_long;
  sub "C07" "huge29" 10 ~thorough:80 ~cpu_limit:600. ~only:[ "hw" ] (c07_huge `P29);
  sub "C07" "huge32" 10 ~thorough:20 ~cpu_limit:900. ~only:[ "hw" ] (c07_huge `P32);
  sub "C07" "hugepiece" 10 ~thorough:20 ~cpu_limit:600. ~only:[ "hw" ] c07_huge_piece;
  sub "C08" "tag" 8000 c08;
  sub "C07" "xof" 40 (blake3_xof ~mac:false);
  sub "C08" "xof" 40 (blake3_xof ~mac:true);
  sub "C07" "xof_huge" 2 ~thorough:6 ~cpu_limit:600. ~only:[ "hw" ] blake3_xof_huge;
  sub "C08" "huge" 7 ~thorough:21 ~cpu_limit:600. ~only:[ "hw" ] c08_huge;
  sub "C09" "aead" 6000 c09;
  sub "C09" "pairs" (2 * 84) c09_pairs;
  sub "C09" "wrap" 1500 c09_wrap;
  sub "C09" "long" 48 ~cpu_limit:200. c09_long;
  sub "C09" "huge" 5 ~thorough:20 ~cpu_limit:600. ~only:[ "hw" ] c09_huge;
  sub "C09" "poly_edge" 3000 c09_poly_edge;
  sub "C09" "poly_carry" 3000 c09_poly_carry;
  sub "C08" "long" 60 ~cpu_limit:200. c08_long;
  sub "C10" "long" 60 c10_long;
  sub "C10" "tamper" 6000 c10;
  sub "C10" "allbits" 400 c10_allbits
