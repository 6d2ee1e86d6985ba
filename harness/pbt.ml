(* A small property-based testing engine.

   A test case is a sequence of integer choices.  Generators draw choices
   through [draw]; the sequence drawn is recorded (in memory shared with the
   supervising process, so that it survives a crash of the code under test).
   Shrinking edits the sequence and re-runs the property in a forked child;
   a replay file is the shrunk sequence. *)

exception Fail of string

let failf fmt = Printf.ksprintf (fun s -> raise (Fail s)) fmt

(* ---------- pseudo-random source (63-bit splitmix-like) ---------- *)

let mix z =
  let z = (z lxor (z lsr 30)) * 0x3F58476D1CE4E5B9 in
  let z = (z lxor (z lsr 27)) * 0x14D049BB133111EB in
  z lxor (z lsr 31)

let hash_string s =
  let h = ref 0x2545F4914F6CDD1D in
  String.iter (fun c -> h := mix (!h * 31 + Char.code c + 1)) s; !h

(* deterministic expansion of a seed to bytes; used for bulk data *)
let expand seed n =
  let b = Bytes.create n in
  let s = ref (mix (seed + 0x1E3779B97F4A7C15)) in
  let i = ref 0 in
  while !i + 7 <= n do
    s := !s + 0x1E3779B97F4A7C15;
    let v = mix !s in
    for k = 0 to 6 do
      Bytes.unsafe_set b (!i + k) (Char.unsafe_chr ((v lsr (8 * k)) land 255))
    done;
    i := !i + 7
  done;
  while !i < n do
    s := !s + 0x1E3779B97F4A7C15;
    Bytes.unsafe_set b !i (Char.unsafe_chr (mix !s land 255));
    incr i
  done;
  Bytes.unsafe_to_string b

(* ---------- shared record of the running case ---------- *)

let max_choices = 1 lsl 17
type shared = (int, Bigarray.int_elt, Bigarray.c_layout) Bigarray.Array1.t
let shared : shared ref = ref (Bigarray.Array1.create Bigarray.int Bigarray.c_layout 16)
(* layout: 0 = sub number, 1 = case index, 2 = number of choices, 3 = state
   (0 idle, 1 running), 4 = heartbeat; choices from 16 *)
let h_off = 16
let make_shared () : shared =
  let name = Filename.temp_file "pbt" ".shm" in
  let fd = Unix.openfile name [Unix.O_RDWR] 0o600 in
  let a = Bigarray.array1_of_genarray
    (Unix.map_file fd Bigarray.int Bigarray.c_layout true [| max_choices + h_off |]) in
  Unix.close fd; Sys.remove name; a

(* ---------- contexts ---------- *)

type tier = Quick | Thorough

type ctx = {
  mutable rnd : int;
  replay : int array option;
  mutable pos : int;
  idx : int;                       (* case index, for stratified draws *)
  mutable sidx : int; mutable nstrat : int;
  tier : tier;
  mutable labels : string list;
  mutable nontriv : bool;
  mutable notes : (string * string) list;
}

let next_rnd c =
  c.rnd <- c.rnd + 0x1E3779B97F4A7C15;
  mix c.rnd land max_int

let record c v =
  if c.pos >= max_choices then raise (Fail "harness: too many choices");
  Bigarray.Array1.unsafe_set !shared (h_off + c.pos) v;
  c.pos <- c.pos + 1;
  Bigarray.Array1.unsafe_set !shared 2 c.pos

let suggest c bound v =
  assert (bound >= 0);
  let v =
    match c.replay with
    | Some a -> if c.pos < Array.length a then (let x = a.(c.pos) in if x < 0 then 0 else if x > bound then bound else x) else 0
    | None -> v in
  record c v; v

let draw c bound =
  let v = match c.replay with
    | Some _ -> 0
    | None -> if bound = max_int then next_rnd c else next_rnd c mod (bound + 1) in
  suggest c bound v

(* inclusive range; shrinks towards lo *)
let range c lo hi = if hi <= lo then lo else lo + draw c (hi - lo)
let bool c = draw c 1 = 1
(* true with probability num/den; shrinks to false *)
let chance c num den =
  let v = match c.replay with Some _ -> 0 | None -> if next_rnd c mod den < num then 1 else 0 in
  suggest c 1 v = 1
let pick c arr = arr.(draw c (Array.length arr - 1))
let pickl c l = List.nth l (draw c (List.length l - 1))
(* choose by weight; shrinks to the first alternative *)
let weighted c alts =
  let total = List.fold_left (fun a (w, _) -> a + w) 0 alts in
  let v = match c.replay with
    | Some _ -> 0
    | None ->
      let r = ref (next_rnd c mod total) and k = ref 0 and found = ref (-1) in
      List.iter (fun (w, _) -> if !found < 0 then (if !r < w then found := !k else r := !r - w); incr k) alts;
      !found in
  let v = suggest c (List.length alts - 1) v in
  snd (List.nth alts v)
(* choices stratified by the case index: every value is reached *)
let strat c n =
  let v =
    if c.nstrat < 2 then (let v = c.sidx mod n in c.sidx <- c.sidx / n; c.nstrat <- c.nstrat + 1; v)
    else next_rnd c mod n in
  suggest c (n - 1) v
let strat_at c _div n = strat c n

let label c l = c.labels <- l :: c.labels
let nontrivial c = c.nontriv <- true
let note c k v = c.notes <- (k, v) :: c.notes

let hex s = 
  let b = Buffer.create (2 * String.length s) in
  String.iter (fun ch -> Buffer.add_string b (Printf.sprintf "%02x" (Char.code ch))) s;
  Buffer.contents b
let show s =
  let l = String.length s in
  if l <= 40 then Printf.sprintf "[%d]%s" l (hex s)
  else Printf.sprintf "[%d]%s..%s" l (hex (String.sub s 0 20)) (hex (String.sub s (l - 8) 8))
let noteb c k v = note c k (show v)
let notei c k v = note c k (string_of_int v)

(* ---------- common generators ---------- *)

let text_words = [| "the "; "quick "; "brown fox "; "jumps "; "over "; "aaaaaaaa"; "\000\000\000\000"; "lazy dog\n" |]

(* hooks: [step_hook] runs before a string is generated; [salt] alters the
   contents of all generated strings without altering the choices;
   [bytes_hook] decides where a generated string lives *)
let step_hook : (unit -> unit) ref = ref (fun () -> ())
let salt = ref 0
let salt_count = ref 0
let bytes_hook : (string -> string) ref = ref (fun s -> s)

(* strings generated earlier in the same case *)
let recent : string list ref = ref []
let recent_of : Obj.t ref = ref (Obj.repr 0)

(* a byte string of given length *)
let bytes_raw c n =
  if !recent_of != Obj.repr c then (recent_of := Obj.repr c; recent := []);
  if n = 0 then "" else begin
    let kind =
      weighted c [ (1, `Zero); (8, `Rand); ((if n <= 40 then 8 else 0), `Explicit); (1, `Ff); (1, `Inc); (2, `Sparse); (1, `Text); (1, `High);
                   (2, `Words); ((if !recent = [] then 0 else 2), `Related) ] in
    let r = match kind with
    | `Zero -> String.make n '\000'
    | `Ff -> String.make n '\255'
    | `High -> String.make n '\128'
    | `Inc -> String.init n (fun i -> Char.chr (i land 255))
    | `Rand -> expand (draw c 0x3FFFFFFF) n
    | `Explicit -> String.init n (fun _ -> Char.chr (draw c 255))
    | `Sparse ->
      let b = Bytes.make n '\000' in
      let k = range c 1 4 in
      for _ = 1 to k do
        let p = range c 0 (n - 1) in
        Bytes.set b p (Char.chr (range c 0 255))
      done;
      Bytes.to_string b
    | `Text ->
      let b = Buffer.create n in
      let s = ref (draw c 0x3FFFFFFF) in
      while Buffer.length b < n do
        s := mix (!s + 1) land max_int;
        Buffer.add_string b text_words.(!s land 7)
      done;
      Buffer.sub b 0 n
    | `Words ->
      (* words at the edges of machine arithmetic *)
      let w = pick c [| 4; 8; 16 |] and s = ref (draw c 0x3FFFFFFF) in
      let b = Buffer.create (n + 16) in
      while Buffer.length b < n do
        s := mix (!s + 1) land max_int;
        (match !s land 7 with
         | 0 | 1 -> Buffer.add_string b (String.make w '\255')
         | 2 -> Buffer.add_string b (String.make w '\000')
         | 3 -> Buffer.add_char b '\001'; Buffer.add_string b (String.make (w - 1) '\000')
         | 4 -> Buffer.add_string b (String.make (w - 1) '\000'); Buffer.add_char b '\128'
         | 5 -> Buffer.add_char b '\254'; Buffer.add_string b (String.make (w - 1) '\255')
         | 6 -> Buffer.add_string b (String.make (w - 1) '\255'); Buffer.add_char b '\127'
         | _ -> Buffer.add_string b (expand !s w))
      done;
      Buffer.sub b 0 n
    | `Related ->
      (* same prefix as an earlier string, or the same but for one bit, or the same *)
      let prev = if !recent = [] then [ "\000" ] else !recent in
      let r = List.nth prev (draw c (List.length prev - 1)) in
      let l = String.length r in
      let how = pick c [| `Same; `Bit; `Prefix; `Suffix |] in
      let b = Bytes.of_string (expand (draw c 0x3FFFFFFF) n) in
      (match how with
       | `Same | `Bit -> for i = 0 to n - 1 do Bytes.set b i r.[i mod l] done
       | `Prefix -> Bytes.blit_string r 0 b 0 (min l (if n <= 8 then n / 2 else n - range c 1 (n / 2)))
       | `Suffix -> let k = min l (n / 2) in Bytes.blit_string r (l - k) b (n - k) k);
      (match how with
       | `Bit -> let p = range c 0 (n - 1) in Bytes.set b p (Char.chr (Char.code (Bytes.get b p) lxor (1 lsl range c 0 7)))
       | _ -> ());
      Bytes.to_string b in
    (match !recent with
     | a :: b :: d :: _ -> recent := [ r; a; b; d ]
     | l -> recent := r :: l);
    r
  end

let bytes_n c n =
  !step_hook ();
  let s = bytes_raw c n in
  let s = if !salt = 0 then s else begin
    incr salt_count;
    let m = expand (!salt + 1000003 * !salt_count) n in
    String.mapi (fun i ch -> Char.chr (Char.code ch lxor Char.code m.[i])) s
  end in
  !bytes_hook s

(* run [f] on [c], then put the generator back where it was *)
let rewind c f =
  let rnd = c.rnd and pos = c.pos and sidx = c.sidx and nstrat = c.nstrat in
  let rec0 = if !recent_of == Obj.repr c then !recent else [] in
  let restore () = c.rnd <- rnd; c.pos <- pos; c.sidx <- sidx; c.nstrat <- nstrat; recent_of := Obj.repr c; recent := rec0 in
  match f () with
  | v -> restore (); v
  | exception e -> restore (); raise e

(* random, hence pairwise distinct w.h.p.; for keys *)
let key_n c n = bytes_n c n

(* a length: dense small values by stratification, boundaries, log-uniform *)
let length ?(dense = 300) ?(block = 64) ?(max = 5000) c =
  match weighted c [ (6, `Strat); (3, `Small); (4, `Bound); (2, `Log) ] with
  | `Strat -> strat c (dense + 1)
  | `Small -> range c 0 (min max (2 * block))
  | `Bound ->
    let k = range c 0 (Stdlib.max 1 (max / block)) in
    let d = range c 0 4 - 2 in
    let v = k * block + d in
    if v < 0 then 0 else if v > max then max else v
  | `Log ->
    let rec lg n = if n <= 1 then 0 else 1 + lg (n / 2) in
    let bits = range c 0 (lg max) in
    let v = draw c ((1 lsl (bits + 1)) - 1) in
    min v max

(* split n into piece lengths (zero-length pieces allowed) *)
let chunks ?(block = 16) c n =
  match weighted c [ (2, `One); (2, `Fixed); (4, `Rand); (4, `Blocky); (1, `Ones); (2, `Two) ] with
  | `One -> [ n ]
  | `Ones when n <= 600 -> List.init n (fun _ -> 1)
  | `Ones | `Two ->
    let a = range c 0 n in [ a; n - a ]
  | `Fixed ->
    let k = range c (1 + n / 2000) (min 200 (max 1 n)) in
    let rec go r = if r <= 0 then [] else if r <= k then [ r ] else k :: go (r - k) in
    go n
  | `Rand ->
    let rec go r count =
      if r <= 0 then [] else if count > 60 then [ r ]
      else let k = range c 0 (min r (1 + n / 3)) in k :: go (r - k) (count + 1) in
    go n 0
  | `Blocky ->
    let rec go r count =
      if r <= 0 then [] else if count > 60 then [ r ]
      else
        let k = block * range c 0 3 + (range c 0 2 - 1) in
        let k = if k < 0 then 0 else min k r in
        k :: go (r - k) (count + 1) in
    go n 0

(* ---------- checks ---------- *)

let check_eq what expected got =
  if not (String.equal expected got) then begin
    let n = min (String.length expected) (String.length got) in
    let i = ref 0 in
    while !i < n && expected.[!i] = got.[!i] do incr i done;
    failf "%s: expected %s, got %s (first difference at byte %d)" what (show expected) (show got) !i
  end
let check_int what expected got =
  if expected <> got then failf "%s: expected %d, got %d" what expected got
let check what cond = if not cond then raise (Fail what)

(* ---------- sub-checks ---------- *)

type sub = {
  prop : string;
  name : string;
  quick : int;
  thorough : int;
  cpu_limit : float;             (* seconds of CPU for a single case *)
  only : string list;            (* variants on which to run; [] = all *)
  body : ctx -> unit;
}

let subs : sub list ref = ref []
let sub ?(cpu_limit = 60.) ?(only = []) ?thorough prop name quick body =
  let thorough = match thorough with Some t -> t | None -> quick * 25 in
  subs := { prop; name; quick; thorough; cpu_limit; only; body } :: !subs

let variant = ref "hw"

(* ---------- running ---------- *)

type outcome = Pass of ctx | Failed of string * ctx

let new_ctx ?replay tier seed s idx =
  { rnd = mix (hash_string (s.prop ^ "/" ^ s.name) + mix (seed * 0x10001 + 17) + mix (idx + 1) * 3);
    replay; pos = 0; idx; sidx = idx; nstrat = 0; tier; labels = []; nontriv = false; notes = [] }

let describe_exn e = Printexc.to_string e

let run_case ?replay tier seed subno s idx =
  let c = new_ctx ?replay tier seed s idx in
  let sh = !shared in
  sh.{0} <- subno; sh.{1} <- idx; sh.{2} <- 0; sh.{3} <- 1; sh.{4} <- sh.{4} + 1;
  let r =
    match s.body c with
    | () -> Pass c
    | exception Fail m -> Failed (m, c)
    | exception e -> Failed ("unexpected exception " ^ describe_exn e, c) in
  sh.{3} <- 0;
  r

(* tell the supervisor that a long case makes progress *)
let heartbeat () = let sh = !shared in sh.{4} <- sh.{4} + 1

(* one case of another sub-check of the same property, run as the very first
   thing that a new process does: the behaviour must not depend on what the
   process did before *)
let fresh_in_process prop names c =
  let name = pick c names in
  let seed = draw c 0xFFFFFF and idx = draw c 4095 in
  note c "first operations of a process" (Printf.sprintf "%s/%s seed=%d index=%d" prop name seed idx);
  label c name;
  let exe = Sys.executable_name in
  let rd, wr = Unix.pipe ~cloexec:true () in
  let dn = Unix.openfile "/dev/null" [ Unix.O_RDONLY; Unix.O_CLOEXEC ] 0 in
  let pid = Unix.create_process exe [| exe; "once"; "--prop"; prop; "--sub"; name; "--variant"; !variant; "--seed"; string_of_int seed;
    "--index"; string_of_int idx; "--tier"; (if c.tier = Thorough then "thorough" else "quick") |] dn wr Unix.stderr in
  Unix.close wr; Unix.close dn;
  let ic = Unix.in_channel_of_descr rd in
  let b = Buffer.create 100 in
  (try while true do Buffer.add_channel b ic 1 done with End_of_file -> ());
  close_in ic;
  match snd (Unix.waitpid [] pid) with
  | Unix.WEXITED 0 -> nontrivial c
  | Unix.WEXITED 1 -> raise (Fail ("as the first operations of a process: " ^ Buffer.contents b))
  | Unix.WEXITED n -> raise (Fail (Printf.sprintf "as the first operations of a process: exit code %d" n))
  | Unix.WSIGNALED g | Unix.WSTOPPED g -> raise (Fail (Printf.sprintf "as the first operations of a process: killed by signal %d" g))

let fresh ?(n = 300) prop names = sub prop "fresh" n (fresh_in_process prop names)

let recorded () =
  let sh = !shared in
  Array.init sh.{2} (fun i -> sh.{h_off + i})

(* run one candidate in a forked child *)
type res = ROk | RFail of string * int array | RHang of int array

let cpu_of_pid pid =
  try
    let ic = open_in (Printf.sprintf "/proc/%d/stat" pid) in
    let l = input_line ic in
    close_in ic;
    let i = String.rindex l ')' in
    let f = String.split_on_char ' ' (String.sub l (i + 2) (String.length l - i - 2)) in
    let g n = float_of_string (List.nth f n) in
    (g 11 +. g 12) /. 100.
  with _ -> 0.

let signal_name s =
  if s = Sys.sigsegv then "SIGSEGV" else if s = Sys.sigabrt then "SIGABRT"
  else if s = Sys.sigbus then "SIGBUS" else if s = Sys.sigill then "SIGILL"
  else if s = Sys.sigfpe then "SIGFPE" else if s = Sys.sigkill then "SIGKILL"
  else if s = Sys.sigtrap then "SIGTRAP"
  else Printf.sprintf "signal %d" s

let try_candidate tier seed subno s idx (cand : int array) : res =
  flush_all ();
  let rd, wr = Unix.pipe () in
  match Unix.fork () with
  | 0 ->
    Unix.close rd;
    let oc = Unix.out_channel_of_descr wr in
    let r = match run_case ~replay:cand tier seed subno s idx with
      | Pass _ -> None
      | Failed (m, _) -> Some m in
    Marshal.to_channel oc (r : string option) [];
    close_out oc;
    Unix._exit 0
  | pid ->
    Unix.close wr;
    let finish () = 
      let ic = Unix.in_channel_of_descr rd in
      let v = (try (Some (Marshal.from_channel ic : string option)) with _ -> None) in
      close_in ic; v in
    let rec wait_fd () =
      match Unix.select [ rd ] [] [] 1.0 with
      | [], _, _ ->
        if cpu_of_pid pid > s.cpu_limit then begin
          Unix.kill pid Sys.sigkill; `Hang end
        else wait_fd ()
      | _ -> `Ready
      | exception Unix.Unix_error (Unix.EINTR, _, _) -> wait_fd () in
    let w = wait_fd () in
    let v = finish () in
    let _, st = Unix.waitpid [] pid in
    match w, v, st with
    | `Hang, _, _ -> RHang (recorded ())
    | _, Some None, _ -> ROk
    | _, Some (Some m), _ -> RFail (m, recorded ())
    | _, None, Unix.WSIGNALED g -> RFail ("process killed by " ^ signal_name g, recorded ())
    | _, None, Unix.WEXITED n -> RFail (Printf.sprintf "process exited with code %d" n, recorded ())
    | _, None, _ -> RFail ("process stopped", recorded ())

(* ---------- shrinking ---------- *)

let shrink ?(max_tries = 600) ?(max_time = 40.) tier seed subno s idx choices msg =
  let best = ref choices and bmsg = ref msg in
  let tries = ref 0 in
  let t0 = Unix.gettimeofday () in
  let budget () = !tries < max_tries && Unix.gettimeofday () -. t0 < max_time in
  let attempt cand =
    if not (budget ()) then false else begin
      incr tries;
      match try_candidate tier seed subno s idx cand with
      | RFail (m, r) ->
        let better =
          Array.length r < Array.length !best
          || (Array.length r = Array.length !best && compare r !best < 0) in
        if better then (best := r; bmsg := m; true) else false
      | ROk | RHang _ -> false
    end in
  let remove a i n = Array.append (Array.sub a 0 i) (Array.sub a (i + n) (Array.length a - i - n)) in
  let changed = ref true in
  while !changed && budget () do
    changed := false;
    (* delete runs *)
    List.iter (fun n ->
      let i = ref (Array.length !best - n) in
      while !i >= 0 && budget () do
        if !i + n <= Array.length !best && attempt (remove !best !i n) then changed := true;
        i := !i - (if n > 8 then n / 2 else 1)
      done) [ 256; 64; 16; 8; 4; 2; 1 ];
    (* zero, then minimise values *)
    let i = ref 0 in
    while !i < Array.length !best && budget () do
      if !best.(!i) <> 0 then begin
        let set v = let a = Array.copy !best in a.(!i) <- v; a in
        if attempt (set 0) then changed := true
        else begin
          let lo = ref 0 and hi = ref !best.(!i) in
          while !hi - !lo > 1 && budget () && !i < Array.length !best do
            let m = !lo + (!hi - !lo) / 2 in
            if attempt (set m) then (changed := true; hi := m) else lo := m
          done
        end
      end;
      incr i
    done
  done;
  (!best, !bmsg, !tries)

(* ---------- worker results ---------- *)

type stats = {
  s_name : string;
  mutable evals : int;
  mutable nontrivial_n : int;
  mutable lbl : (string * int) list;
  mutable samples : string list;
  mutable hashes : int list;
}

let hash_choices sub =
  let sh = !shared in
  let h = ref (hash_string sub) in
  for i = 0 to sh.{2} - 1 do h := mix (!h * 31 + sh.{h_off + i} + 1) done;
  !h
