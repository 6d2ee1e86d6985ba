(* C24: the same program on differently configured builds *)
open Pbt
module C = Cryptokit

let sp = Printf.sprintf

let run_prog c =
  let (name, p) = if c.idx land 7 = 5 then ("edge", Progs.p_edge) else Progs.gen c in
  let b = Buffer.create 500 in
  (match p c b with
   | () -> ()
   | exception (Fail _ as e) -> raise e
   | exception e -> Progs.out b "uncaught" (Progs.exn e));
  (name, Buffer.contents b)

let dummy = { prop = "C24"; name = "serve"; quick = 0; thorough = 0; cpu_limit = 60.; only = []; body = (fun _ -> ()) }

(* one request per line: tier index choices...; answer: length, then transcript *)
let serve () =
  shared := make_shared ();
  (try
    while true do
      let l = input_line stdin in
      let v = List.map int_of_string (String.split_on_char ' ' l) in
      match v with
      | tier :: idx :: ch ->
        let c = new_ctx ~replay:(Array.of_list ch) (if tier = 1 then Thorough else Quick) 0 dummy idx in
        let r = match run_prog c with (_, t) -> t | exception e -> "harness failure: " ^ Printexc.to_string e in
        Printf.printf "%d\n%s%!" (String.length r) r
      | _ -> exit 2
    done
  with End_of_file -> ());
  exit 0

type peer = { pname : string; pid : int; ic : in_channel; oc : out_channel }
let peers : (int * peer list) ref = ref (0, [])
let arg name =
  let r = ref "" in
  Array.iteri (fun i a -> if a = "--" ^ name && i + 1 < Array.length Sys.argv then r := Sys.argv.(i + 1)) Sys.argv; !r

let get_peers () =
  let pid = Unix.getpid () in
  if fst !peers <> pid then begin
    let l = if arg "peers" = "" then [] else List.map (fun s ->
      let i = String.index s '=' in
      let pname = String.sub s 0 i and exe = String.sub s (i + 1) (String.length s - i - 1) in
      let r1, w1 = Unix.pipe ~cloexec:true () and r2, w2 = Unix.pipe ~cloexec:true () in
      let pid = Unix.create_process exe [| exe; "serve"; "--variant"; pname |] r1 w2 Unix.stderr in
      Unix.close r1; Unix.close w2;
      { pname; pid; ic = Unix.in_channel_of_descr r2; oc = Unix.out_channel_of_descr w1 }) (String.split_on_char ',' (arg "peers")) in
    peers := (pid, l)
  end;
  snd !peers

let drop_peers () =
  if fst !peers = Unix.getpid () then
    List.iter (fun p -> close_out_noerr p.oc; close_in_noerr p.ic; (try ignore (Unix.waitpid [] p.pid) with _ -> ())) (snd !peers);
  peers := (0, [])

let first_line_diff a b =
  let rec d a b = match a, b with
    | x :: a', y :: b' -> if x = y then d a' b' else (x, y) | x :: _, [] -> (x, "(nothing)") | [], y :: _ -> ("(nothing)", y) | [], [] -> ("", "") in
  let (x, y) = d (String.split_on_char '\n' a) (String.split_on_char '\n' b) in
  let cut s = if String.length s > 160 then String.sub s 0 160 ^ "..." else s in
  (cut x, cut y)

let c24 c =
  let (name, t) = run_prog c in
  label c name;
  let ch = recorded () in
  let ps = get_peers () in
  Sys.set_signal Sys.sigpipe Sys.Signal_ignore;
  let req = String.concat " " (List.map string_of_int ((if c.tier = Thorough then 1 else 0) :: c.idx :: Array.to_list ch)) in
  List.iter (fun p -> try output_string p.oc (req ^ "\n"); flush p.oc with Sys_error _ -> ()) ps;
  List.iter (fun p ->
    let r = match (let n = int_of_string (input_line p.ic) in really_input_string p.ic n) with
      | r -> r
      | exception _ -> drop_peers (); failf "the program crashes on build %s (not on %s)" p.pname !variant in
    let expected =
      if p.pname = "nozlib" && name = "zlib" then
        let e = Progs.exn (C.Error C.Compression_not_supported) in sp "compress=%s\nuncompress=%s\n" e e
      else t in
    if not (String.equal expected r) then begin
      drop_peers ();
      let (x, y) = first_line_diff expected r in
      failf "build %s differs from build %s: %s / %s" p.pname !variant y x
    end) ps;
  if ps <> [] && String.length t > 20 then nontrivial c

(* every build starts a new process for the program *)
let c24_fresh c = drop_peers (); c24 c; drop_peers ()

let register () =
  sub "C24" "fresh" 240 c24_fresh;
  sub "C24" "programs" 9000 c24
