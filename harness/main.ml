(* Command line driver: run | replay | serve | list *)
open Pbt

let arg name default =
  let r = ref default in
  Array.iteri (fun i a -> if a = "--" ^ name && i + 1 < Array.length Sys.argv then r := Sys.argv.(i + 1)) Sys.argv;
  !r

let json_str s =
  let b = Buffer.create (String.length s + 8) in
  Buffer.add_char b '"';
  String.iter (fun c -> match c with
    | '"' -> Buffer.add_string b "\\\"" | '\\' -> Buffer.add_string b "\\\\"
    | '\n' -> Buffer.add_string b "\\n"
    | c when Char.code c < 32 || Char.code c > 126 -> Buffer.add_string b (Printf.sprintf "\\u%04x" (Char.code c))
    | c -> Buffer.add_char b c) s;
  Buffer.add_char b '"'; Buffer.contents b

let tier_of = function "thorough" -> Thorough | _ -> Quick

let subs_for prop =
  let l = List.filter (fun s -> s.prop = prop) (List.rev !subs) in
  let only = arg "sub" "" in
  let l = if only = "" then l else List.filter (fun s -> s.name = only) l in
  let l = List.filter (fun s -> s.only = [] || List.mem !variant s.only) l in
  (* development only (tools/mutate.py): leave out named sub-checks *)
  match Sys.getenv_opt "VERIF_SKIP" with
  | None -> l
  | Some names -> let names = String.split_on_char ',' names in List.filter (fun s -> not (List.mem s.name names)) l

(* most cases take well under a millisecond; the counts in the registration
   lists are multiplied for all sub-checks but the slow ones *)
let boost s =
  match s.prop, s.name with
  | _, "fresh" | "C07", "xof_huge" -> 1
  | _, "xof" -> 4
  | ("C08" | "C10"), "long" -> 4
  | "C02", ("exhaust3" | "exhaust4") | "C03", "hugepiece" | "C09", "huge" | "C27", "huge" | "C18", "hugereq" | "C07", ("huge29" | "huge32" | "hugepiece") | "C06", "bigpiece" | "C17", "huge" | "C28", _ | "C07", "blake3_long" | "C08", "huge" | "C19", ("huge" | "rdrand_avail") | _, "highofs" | ("C03" | "C06" | "C09" | "C18"), "pairs" | "C22", "g_pairs" | "C18", "short_seed" -> 1
  | "C05", "history" -> 4
  | "C20", "objects" | "C23", "programs" | "C22", "g_history" | "C17", "uprefix" | "C26", "hash" -> 6
  | ("C02" | "C17" | "C11" | "C07" | "C26" | "C29" | "C25" | "C18" | "C08" | "C23" | "C24" | "C09"), _ -> 10
  | "C22", _ -> 8
  | _ -> 20

let count tier s =
  let scale = float_of_string (arg "scale" "1.0") in
  let n = match tier with Quick -> s.quick | Thorough -> s.thorough in
  let n = n * boost s in
  if n = 0 then 0 else max 1 (int_of_float (scale *. float n))

let emit_stats file (all : stats list) status fields =
  let oc = open_out (file ^ ".tmp") in
  Printf.fprintf oc "{\"status\":%s" (json_str status);
  List.iter (fun (k, v) -> Printf.fprintf oc ",%s:%s" (json_str k) v) fields;
  output_string oc ",\"subs\":[";
  List.iteri (fun i s ->
    Printf.fprintf oc "%s{\"name\":%s,\"evaluations\":%d,\"nontrivial\":%d,\"labels\":{%s},\"samples\":[%s]}"
      (if i > 0 then "," else "") (json_str s.s_name) s.evals s.nontrivial_n
      (String.concat "," (List.map (fun (l, n) -> Printf.sprintf "%s:%d" (json_str l) n) s.lbl))
      (String.concat "," (List.map json_str (List.rev s.samples)))) all;
  output_string oc "]}\n";
  close_out oc;
  let oc = open_out_bin (file ^ ".hashes") in
  let b = Bytes.create 8 in
  List.iter (fun s -> List.iter (fun h -> Bytes.set_int64_le b 0 (Int64.of_int h); output_bytes oc b) s.hashes) all;
  close_out oc;
  Sys.rename (file ^ ".tmp") file

(* the worker: runs the cases of this shard; returns failure if any *)
let t_start = Unix.gettimeofday ()
let deadline () = float_of_string (arg "deadline" "100000")
let worker tier seed shard shards sub_list outfile (stop_at : (int * int) option) =
  let dl = t_start +. deadline () in
  let all = ref [] in
  let failure = ref None in
  (try
    List.iteri (fun subno s ->
      let st = { s_name = s.name; evals = 0; nontrivial_n = 0; lbl = []; samples = []; hashes = [] } in
      all := st :: !all;
      let n = count tier s in
      let tbl = Hashtbl.create 16 in
      let i = ref shard in
      while !i < n && Unix.gettimeofday () < dl do
        (match stop_at with
         | Some (sn, ix) when subno > sn || (subno = sn && !i > ix) -> raise Exit
         | _ -> ());
        (match run_case tier seed subno s !i with
         | Pass c ->
           st.evals <- st.evals + 1;
           List.iter (fun l -> Hashtbl.replace tbl l (1 + try Hashtbl.find tbl l with Not_found -> 0)) c.labels;
           if c.nontriv then begin
             st.nontrivial_n <- st.nontrivial_n + 1;
             st.hashes <- hash_choices s.name :: st.hashes;
             if List.length st.samples < 2 && c.notes <> [] then
               st.samples <- (Printf.sprintf "%s#%d: %s" s.name !i
                 (String.concat " " (List.rev_map (fun (k, v) -> k ^ "=" ^ v) c.notes))) :: st.samples
           end
         | Failed (m, _) ->
           st.evals <- st.evals + 1;
           failure := Some (subno, !i, recorded (), m);
           raise Exit);
        i := !i + shards
      done;
      st.lbl <- Hashtbl.fold (fun k v a -> (k, v) :: a) tbl []) sub_list
  with Exit -> ());
  (List.rev !all, !failure)

let write_replay path prop s tier seed idx kind shard shards choices msg =
  let oc = open_out path in
  Printf.fprintf oc "property %s\nsub %s\nvariant %s\ntier %s\nseed %d\nindex %d\nkind %s\nshard %d\nshards %d\nscale %s\nmessage %s\nchoices %s\n"
    prop s.name !variant (match tier with Quick -> "quick" | Thorough -> "thorough") seed idx kind shard shards
    (arg "scale" "1.0") (String.escaped msg)
    (String.concat " " (Array.to_list (Array.map string_of_int choices)));
  close_out oc

(* run the worker in a child; supervise for crashes and hangs.
   Returns `Done | `Failure (subno, idx, choices, msg, crashed) *)
let supervised tier seed shard shards sub_list outfile stop_at =
  flush_all ();
  let rd, wr = Unix.pipe () in
  match Unix.fork () with
  | 0 ->
    Unix.close rd;
    let (all, failure) = worker tier seed shard shards sub_list outfile stop_at in
    if stop_at = None then emit_stats outfile all (if failure = None then "ok" else "fail") [];
    let oc = Unix.out_channel_of_descr wr in
    Marshal.to_channel oc (failure : (int * int * int array * string) option) [];
    close_out oc;
    Unix._exit 0
  | pid ->
    Unix.close wr;
    let sh = !shared in
    let last = ref (-1) and cpu0 = ref 0. in
    let rec wait () =
      match Unix.select [ rd ] [] [] 1.0 with
      | [], _, _ ->
        let beat = sh.{4} in
        let cpu = cpu_of_pid pid in
        if beat <> !last then (last := beat; cpu0 := cpu; wait ())
        else begin
          let lim = try (List.nth sub_list sh.{0}).cpu_limit with _ -> 60. in
          if sh.{3} = 1 && cpu -. !cpu0 > lim then (Unix.kill pid Sys.sigkill; `Hang) else wait ()
        end
      | _ -> `Ready
      | exception Unix.Unix_error (Unix.EINTR, _, _) -> wait () in
    let w = wait () in
    let ic = Unix.in_channel_of_descr rd in
    let v = try Some (Marshal.from_channel ic : (int * int * int array * string) option) with _ -> None in
    close_in ic;
    let _, st = Unix.waitpid [] pid in
    match w, v, st with
    | `Hang, _, _ -> `Hang (sh.{0}, sh.{1}, recorded ())
    | _, Some None, _ -> `Done
    | _, Some (Some f), _ -> `Failure f
    | _, None, Unix.WSIGNALED g -> `Failure (sh.{0}, sh.{1}, recorded (), "process killed by " ^ signal_name g)
    | _, None, Unix.WEXITED n -> `Failure (sh.{0}, sh.{1}, recorded (), Printf.sprintf "process exited with code %d" n)
    | _, None, _ -> `Failure (sh.{0}, sh.{1}, recorded (), "process stopped")

let run () =
  let prop = arg "prop" "" and tier = tier_of (arg "tier" "quick") in
  let seed = int_of_string (arg "seed" "1") in
  let shard = int_of_string (arg "shard" "0") and shards = int_of_string (arg "shards" "1") in
  let outfile = arg "out" "/dev/null" in
  let replay_path = arg "replay-out" "replay.txt" in
  let sub_list = subs_for prop in
  shared := make_shared ();
  let report subno idx choices msg kind =
    let s = List.nth sub_list subno in
    write_replay replay_path prop s tier seed idx kind shard shards choices msg;
    Printf.printf "FAIL %s/%s variant=%s case=%d: %s\n%!" prop s.name !variant idx msg;
    exit 1 in
  match supervised tier seed shard shards sub_list outfile None with
  | `Done -> exit 0
  | `Hang (subno, idx, choices) ->
    (* confirm: same case, alone, three times *)
    let s = List.nth sub_list subno in
    let again = List.for_all (fun _ ->
      match try_candidate tier seed subno s idx choices with RHang _ -> true | _ -> false) [ 1; 2 ] in
    if again then report subno idx choices "operation does not terminate" "case"
    else (Printf.printf "INCONCLUSIVE: slow case %s/%s #%d not reproduced\n" prop s.name idx; exit 3)
  | `Failure (subno, idx, choices, msg) ->
    let s = List.nth sub_list subno in
    let fails ch = match try_candidate tier seed subno s idx ch with RFail _ -> true | _ -> false in
    let rec often ok n f = ok <= 0 || (n > 0 && often (if f () then ok - 1 else ok) (n - 1) f) in
    if often 2 4 (fun () -> fails choices) then begin
      let best, bmsg, _ = shrink tier seed subno s idx choices msg in
      if often 2 4 (fun () -> fails best) then report subno idx best bmsg "case"
      else report subno idx choices msg "case"
    end;
    (* depends on what ran before: replay the whole prefix of the shard *)
    let again = often 1 3 (fun () ->
      match supervised tier seed shard shards sub_list outfile (Some (subno, idx)) with
      | `Failure (s', _, _, _) -> s' = subno
      | _ -> false) in
    if again then report subno idx choices msg "prefix"
    else (write_replay replay_path prop s tier seed idx "prefix" shard shards choices msg;
      Printf.printf "INCONCLUSIVE: failure of %s/%s #%d not reproduced: %s\n" prop s.name idx msg; exit 3)

let replay () =
  let file = Sys.argv.(2) in
  let ic = open_in_bin file in
  let tbl = Hashtbl.create 16 in
  (try while true do
    let l = input_line ic in
    match String.index_opt l ' ' with
    | Some i -> Hashtbl.replace tbl (String.sub l 0 i) (String.sub l (i + 1) (String.length l - i - 1))
    | None -> () done with End_of_file -> ());
  close_in ic;
  let g k = try Hashtbl.find tbl k with Not_found -> "" in
  let prop = g "property" and tier = tier_of (g "tier") and seed = int_of_string (g "seed") and idx = int_of_string (g "index") in
  shared := make_shared ();
  let sub_list = subs_for prop in
  let rec find i = function [] -> failwith "no such sub-check" | s :: r -> if s.name = g "sub" then (i, s) else find (i + 1) r in
  let subno, s = find 0 sub_list in
  if g "kind" = "prefix" then begin
    let shard = int_of_string (g "shard") and shards = int_of_string (g "shards") in
    match supervised tier seed shard shards sub_list "/dev/null" (Some (subno, idx)) with
    | `Failure (_, _, _, m) -> Printf.printf "FAIL %s/%s: %s\n" prop s.name m; exit 1
    | `Hang _ -> print_endline "FAIL hang"; exit 1
    | `Done -> print_endline "PASS"; exit 0
  end else begin
    let ch = g "choices" in
    let choices = if ch = "" then [||] else Array.of_list (List.map int_of_string (String.split_on_char ' ' ch)) in
    match try_candidate tier seed subno s idx choices with
    | ROk -> print_endline "PASS"; exit 0
    | RFail (m, _) -> Printf.printf "FAIL %s/%s: %s\n" prop s.name m;
      (* show the case *)
      (match Unix.fork () with
       | 0 -> (match run_case ~replay:choices tier seed subno s idx with
           | Pass c | Failed (_, c) ->
             List.iter (fun (k, v) -> Printf.printf "  %s = %s\n" k v) (List.rev c.notes); flush stdout; Unix._exit 0)
       | pid -> ignore (Unix.waitpid [] pid));
      exit 1
    | RHang _ -> Printf.printf "FAIL %s/%s: does not terminate\n" prop s.name; exit 1
  end

(* one case, alone in its process (see Pbt.fresh) *)
let once () =
  shared := make_shared ();
  let prop = arg "prop" "" and name = arg "sub" "" in
  let s = List.find (fun s -> s.prop = prop && s.name = name) !subs in
  match run_case (tier_of (arg "tier" "quick")) (int_of_string (arg "seed" "1")) 0 s (int_of_string (arg "index" "0")) with
  | Pass _ -> exit 0
  | Failed (m, _) -> print_string m; exit 1

let () =
  variant := arg "variant" "hw";
  Props.register ();
  if Array.length Sys.argv < 2 then (prerr_endline "usage: run|replay|serve|list"; exit 2);
  match Sys.argv.(1) with
  | "run" -> run ()
  | "replay" -> replay ()
  | "once" -> once ()
  | "serve" -> Props.serve ()
  | "list" -> List.iter (fun s -> Printf.printf "%s %s %d %d\n" s.prop s.name s.quick s.thorough) (List.rev !subs)
  | _ -> exit 2
