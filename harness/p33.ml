(* C33: refused memory.  Requests for memory made by the library's C code, or by
   zlib on its behalf, are refused at generated points. *)
open Pbt
open Objs
module C = Cryptokit
let sp = Printf.sprintf

(* [run ()] creates an object, uses it and returns everything it produced *)
let kind c =
  let n = length ~dense:40 ~block:64 ~max:3000 c in
  let wipe = bool c and fl2 = bool c in
  match strat c 16 with
  | 0 | 1 | 2 ->
    (* the hashes whose state lives outside of the OCaml heap, above all *)
    let h = (match draw c 5 with
      | 0 | 1 -> let b = pick c [| 224; 256; 384; 512 |] in
        if bool c then hi (sp "sha3 %d" b) 64 (b / 8) (fun () -> C.Hash.sha3 b) (fun s -> s) else hi (sp "keccak %d" b) 64 (b / 8) (fun () -> C.Hash.keccak b) (fun s -> s)
      | 2 -> let b = blake3_size c in hi (sp "blake3 %d" b) 64 (b / 8) (fun () -> C.Hash.blake3 b) (fun s -> s)
      | 3 -> let k = bytes_n c 32 in hi "MAC.blake3" 64 32 (fun () -> C.MAC.blake3 256 k) (fun s -> s)
      | _ -> gen_hash c) in
    let data = bytes_n c (n / h.h_unit * h.h_unit) in
    let cut = range c 0 (String.length data) in
    (h.h_desc, fun () -> let o = h.h_make () in
      o#add_string (String.sub data 0 cut); o#add_string (String.sub data cut (String.length data - cut)); let r = o#result in if wipe then o#wipe; r)
  | 3 | 4 | 5 ->
    let a = if strat c 3 < 2 then a_gcm c else a_chapoly c in
    let data = bytes_n c n in
    let enc = bool c in
    (a.a_desc, fun () -> let t = a.a_make enc in t#put_string data; let tag = t#finish_and_get_tag in let r = t#get_string in if wipe then t#wipe; r ^ tag)
  | 6 | 7 | 8 | 9 ->
    let level = range c 0 9 and h = bool c in
    let data = P2.compressible c n in
    let fl = bool c in
    (sp "Zlib.compress level %d" level, fun () ->
      let t = C.Zlib.compress ~level ~write_zlib_header:h () in
      t#put_string data; if fl then t#flush; t#finish; let r = t#get_string in if wipe then t#wipe; r)
  | 10 | 11 | 12 | 13 ->
    let h = bool c in
    let z = C.transform_string (C.Zlib.compress ~level:(range c 0 9) ~write_zlib_header:h ()) (P2.compressible c n) in
    let cut = range c 0 (String.length z) in
    (sp "Zlib.uncompress %b" h, fun () ->
      let t = C.Zlib.uncompress ~expect_zlib_header:h () in
      t#put_string (String.sub z 0 cut); if fl2 then t#flush; t#put_string (String.sub z cut (String.length z - cut)); t#finish;
      let r = t#get_string in if wipe then t#wipe; r)
  | 14 ->
    let ti = gen_transform c in
    let data = ti.t_gen c n in
    (ti.t_desc, fun () -> C.transform_string (ti.t_make ()) data)
  | _ ->
    let ti = t_cipher c in
    let data = ti.t_gen c n in
    let h = gen_hash c in
    let data = if h.h_unit > 1 then "" else data in
    (sp "transform_and_hash %s %s" ti.t_desc h.h_desc, fun () ->
      C.transform_string (ti.t_make ()) data |> C.hash_string (h.h_make ()))

let attempt run =
  match run () with
  | r -> `Ok r
  | exception Out_of_memory -> `Refused
  | exception C.Error (C.Compression_error (_, _)) -> `Refused
  | exception (Fail _ as e) -> raise e
  | exception e -> `Exn (P1.exn_name e)

let show_r = function `Ok s -> sp "result %s" (show s) | `Refused -> "refused" | `Exn s -> "exception " ^ s

let c33 c =
  let desc, run = kind c in
  note c "object" desc;
  label c (match String.index_opt desc ' ' with Some i -> String.sub desc 0 i | None -> desc);
  let points = range c 1 4 in
  let script = List.init points (fun _ ->
    let a = match draw c 3 with 0 | 1 -> range c 0 2 | 2 -> range c 0 6 | _ -> range c 0 30 in
    let b = match draw c 2 with 0 -> a + 1 | 1 -> a + range c 1 3 | _ -> max_int in
    (a, b)) in
  note c "refused requests" (String.concat "; " (List.map (fun (a, b) -> if b = max_int then sp "%d.." a else sp "%d..%d" a (b - 1)) script));
  let wait = List.map (fun _ -> draw c 3) script in
  let body () =
    let hits = ref 0 in
    (* a witness that lives through everything *)
    let w = C.Hash.sha3 256 and z = C.Zlib.compress () in
    w#add_string "before"; z#put_string "before";
    let normal = attempt run in
    (match attempt run with r when r = normal -> () | _ -> failf "harness: not repeatable");
    Hs.poison true;
    Hs.refuse (-1) 0;
    Gc.minor ();
    List.iter2 (fun (a, b) wait ->
      Hs.refuse a b;
      let r = (match attempt run with r -> r | exception e -> Hs.refuse (-1) 0; raise e) in
      Hs.refuse (-1) 0;
      let hit = Hs.refused () in
      hits := !hits + hit;
      (match r with
       | `Refused when hit > 0 -> ()
       | r when r = normal -> ()
       | r -> failf "%s, %d requests for memory refused: %s (normally: %s)" desc hit (show_r r) (show_r normal));
      (match wait with 0 -> Gc.minor () | 1 -> Gc.full_major () | 2 -> Gc.compact () | _ -> ());
      (match attempt run with r when r = normal -> () | r -> failf "%s, after a refusal: %s (normally: %s)" desc (show_r r) (show_r normal))) script wait;
    Gc.full_major (); Gc.full_major ();
    w#add_string "after"; z#put_string "after"; z#finish;
    check_eq "another hash object" (Refs.sha3 256 "beforeafter") w#result;
    (match Defl.inflate ~zlib:false z#get_string with Defl.Valid "beforeafter" -> () | _ -> failf "another compressor is affected");
    (* nothing is lost *)
    let (a, b) = List.hd script in
    let one () = Hs.refuse a b; (match attempt run with _ -> Hs.refuse (-1) 0 | exception e -> Hs.refuse (-1) 0; raise e) in
    P31.steady (desc ^ ", memory refused") 12 one;
    let z0 = (Gc.full_major (); Gc.full_major (); Hs.z_live ()) in
    for _ = 1 to 4 do one () done;
    Gc.full_major (); Gc.full_major ();
    if Hs.z_live () > z0 then failf "%s, memory refused: zlib's memory is not released" desc;
    Hs.poison false;
    !hits in
  match P3.in_child body with
  | Ok hits -> if hits > 0 then nontrivial c
  | Error m -> raise (Fail m)

let register () =
  sub "C33" "refused" 1200 ~only:[ "hw"; "sw"; "nocpu" ] c33
