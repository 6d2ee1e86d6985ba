(* Reference decoder for deflate/zlib streams, and generator of valid streams. *)
open Pbt

exception Invalid of string
exception Truncated

let len_base = [|3;4;5;6;7;8;9;10;11;13;15;17;19;23;27;31;35;43;51;59;67;83;99;115;131;163;195;227;258|]
let len_extra = [|0;0;0;0;0;0;0;0;1;1;1;1;2;2;2;2;3;3;3;3;4;4;4;4;5;5;5;5;0|]
let dist_base = [|1;2;3;4;5;7;9;13;17;25;33;49;65;97;129;193;257;385;513;769;1025;1537;2049;3073;4097;6145;8193;12289;16385;24577|]
let dist_extra = [|0;0;0;0;1;1;2;2;3;3;4;4;5;5;6;6;7;7;8;8;9;9;10;10;11;11;12;12;13;13|]
let cl_order = [|16;17;18;0;8;7;9;6;10;5;11;4;12;3;13;2;14;1;15|]

(* canonical codes: array of (code, length) *)
let canonical lens =
  let maxl = Array.fold_left max 0 lens in
  let cnt = Array.make (maxl + 2) 0 in
  Array.iter (fun l -> if l > 0 then cnt.(l) <- cnt.(l) + 1) lens;
  let next = Array.make (maxl + 2) 0 in
  let code = ref 0 in
  for l = 1 to maxl do
    code := (!code + (if l > 1 then cnt.(l - 1) else 0)) lsl 1;
    next.(l) <- !code
  done;
  Array.map (fun l -> if l = 0 then (0, 0) else (let v = next.(l) in next.(l) <- v + 1; (v, l))) lens

(* decoding table: (length, code) -> symbol *)
type table = { tbl : (int, int) Hashtbl.t; maxlen : int }
let make_table ~kind lens =
  let left = ref 1 in
  let maxl = Array.fold_left max 0 lens in
  for l = 1 to 15 do
    left := !left * 2;
    Array.iter (fun x -> if x = l then decr left) lens;
    if !left < 0 then raise (Invalid "over-subscribed code")
  done;
  if maxl > 0 && !left > 0 && (kind = `Codes || maxl <> 1) then raise (Invalid "incomplete code");
  if maxl = 0 && kind = `Codes then raise (Invalid "empty code length code");
  let t = Hashtbl.create 300 in
  Array.iteri (fun sym (code, l) -> if l > 0 then Hashtbl.replace t ((l lsl 16) lor code) sym) (canonical lens);
  { tbl = t; maxlen = maxl }

let fixed_lit = lazy (make_table ~kind:`Lens (Array.init 288 (fun i -> if i < 144 then 8 else if i < 256 then 9 else if i < 280 then 7 else 8)))
let fixed_dist = lazy (make_table ~kind:`Dists (Array.make 32 5))

(* inflate raw data of [s] from byte [start]; output goes to [out].
   returns the position of the first byte after the stream *)
let inflate_raw s start out =
  let pos = ref (8 * start) in
  let nbits = 8 * String.length s in
  let bit () =
    if !pos >= nbits then raise Truncated;
    let b = (Char.code s.[!pos lsr 3] lsr (!pos land 7)) land 1 in incr pos; b in
  let bits n = let v = ref 0 in for i = 0 to n - 1 do v := !v lor (bit () lsl i) done; !v in
  let decode t =
    let rec go code l =
      if l >= t.maxlen then raise (Invalid "invalid code");
      let code = (code lsl 1) lor bit () in
      match Hashtbl.find_opt t.tbl (((l + 1) lsl 16) lor code) with
      | Some sym -> sym
      | None -> go code (l + 1) in
    go 0 0 in
  let block lit dist =
    let fin = ref false in
    while not !fin do
      let sym = decode lit in
      if sym < 256 then Buffer.add_char out (Char.chr sym)
      else if sym = 256 then fin := true
      else begin
        if sym > 285 then raise (Invalid "invalid literal/length code");
        let len = len_base.(sym - 257) + bits len_extra.(sym - 257) in
        let d = decode dist in
        if d > 29 then raise (Invalid "invalid distance code");
        let dist = dist_base.(d) + bits dist_extra.(d) in
        let n = Buffer.length out in
        if dist > n then raise (Invalid "distance too far back");
        for i = 0 to len - 1 do Buffer.add_char out (Buffer.nth out (n - dist + i)) done
      end
    done in
  let last = ref false in
  while not !last do
    last := bit () = 1;
    match bits 2 with
    | 0 ->
      pos := (!pos + 7) land (lnot 7);
      let len = bits 16 in let nlen = bits 16 in
      if len lxor nlen <> 0xFFFF then raise (Invalid "stored block lengths");
      for _ = 1 to len do Buffer.add_char out (Char.chr (bits 8)) done
    | 1 -> block (Lazy.force fixed_lit) (Lazy.force fixed_dist)
    | 2 ->
      let nlen = bits 5 + 257 in let ndist = bits 5 + 1 in let ncode = bits 4 + 4 in
      if nlen > 286 || ndist > 30 then raise (Invalid "too many symbols");
      let cl = Array.make 19 0 in
      for i = 0 to ncode - 1 do cl.(cl_order.(i)) <- bits 3 done;
      let t = make_table ~kind:`Codes cl in
      let lens = Array.make (nlen + ndist) 0 in
      let i = ref 0 in
      while !i < nlen + ndist do
        let sym = decode t in
        if sym < 16 then (lens.(!i) <- sym; incr i)
        else begin
          let v, rep =
            if sym = 16 then begin
              if !i = 0 then raise (Invalid "repeat without length");
              let v = lens.(!i - 1) in (v, 3 + bits 2) end
            else if sym = 17 then (0, 3 + bits 3) else (0, 11 + bits 7) in
          if !i + rep > nlen + ndist then raise (Invalid "repeat too long");
          for _ = 1 to rep do lens.(!i) <- v; incr i done
        end
      done;
      if lens.(256) = 0 then raise (Invalid "missing end of block");
      let lit = make_table ~kind:`Lens (Array.sub lens 0 nlen) in
      let dist = make_table ~kind:`Dists (Array.sub lens nlen ndist) in
      block lit dist
    | _ -> raise (Invalid "block type 3")
  done;
  (!pos + 7) / 8

type verdict = Valid of string | Bad of string | Short of string
(* complete stream; trailing bytes are an error *)
let inflate ~zlib s =
  let out = Buffer.create 1000 in
  try
    if zlib then begin
      if String.length s < 2 then raise Truncated;
      let cmf = Char.code s.[0] and flg = Char.code s.[1] in
      if (cmf * 256 + flg) mod 31 <> 0 then raise (Invalid "header check");
      if cmf land 15 <> 8 then raise (Invalid "method");
      if cmf lsr 4 > 7 then raise (Invalid "window size");
      if flg land 32 <> 0 then raise (Invalid "dictionary");
      let e = inflate_raw s 2 out in
      if String.length s < e + 4 then raise Truncated;
      if Refs.be32 s e <> Refs.adler32 (Buffer.contents out) then raise (Invalid "checksum");
      if String.length s > e + 4 then raise (Invalid "trailing data")
    end else begin
      let e = inflate_raw s 0 out in
      if String.length s > e then raise (Invalid "trailing data")
    end;
    Valid (Buffer.contents out)
  with
  | Invalid m -> Bad m
  | Truncated -> Short (Buffer.contents out)

(* what can be decoded of an unfinished stream *)
let inflate_prefix ~zlib s =
  match inflate ~zlib s with
  | Valid o | Short o -> o
  | Bad m -> raise (Invalid m)

(* ---------------- generator ---------------- *)
type bw = { b : Buffer.t; mutable acc : int; mutable n : int }
let bw () = { b = Buffer.create 1000; acc = 0; n = 0 }
let put w v k =
  for i = 0 to k - 1 do
    w.acc <- w.acc lor (((v lsr i) land 1) lsl w.n);
    w.n <- w.n + 1;
    if w.n = 8 then (Buffer.add_char w.b (Char.chr w.acc); w.acc <- 0; w.n <- 0)
  done
let put_code w (code, l) = for i = l - 1 downto 0 do put w ((code lsr i) land 1) 1 done
let align w = if w.n > 0 then put w 0 (8 - w.n)
let close w = align w; Buffer.contents w.b

type tok = Lit of int | Match of int * int        (* length, distance *)

let find_code base v =
  let r = ref 0 in
  Array.iteri (fun i b -> if b <= v then r := i) base; !r
let len_code l = if l = 258 then 28 else min 27 (find_code (Array.sub len_base 0 28) l)
let dist_code d = find_code dist_base d

(* a random complete prefix code for [n] >= 2 leaves, depth at most [maxd]: multiset of depths *)
let random_depths c n maxd =
  let leaves = ref [ 0 ] and cnt = ref 1 in
  let skew = range c 0 2 in
  while !cnt < n do
    let ok = List.filter (fun d -> d < maxd) !leaves in
    let pickd = match skew with
      | 0 -> List.fold_left min maxd ok                              (* balanced *)
      | 1 -> List.fold_left max 0 ok                                 (* skewed *)
      | _ -> List.nth ok (draw c (List.length ok - 1)) in
    let rec rm = function [] -> [] | x :: r -> if x = pickd then r else x :: rm r in
    leaves := (pickd + 1) :: (pickd + 1) :: rm !leaves;
    incr cnt
  done;
  !leaves

let assign_lens c size used maxd =
  (* used: list of symbols, at least one *)
  let lens = Array.make size 0 in
  (match used with
   | [ x ] -> lens.(x) <- 1
   | l ->
     let d = random_depths c (List.length l) maxd in
     (* rotate the assignment *)
     let d = if bool c then List.rev d else d in
     List.iter2 (fun s d -> lens.(s) <- d) l d);
  lens

let gen_tokens c hist n =
  (* about n tokens; hist: bytes already output *)
  let out = hist in
  let toks = ref [] in
  let period = range c 1 4 in
  for _ = 1 to n do
    let h = Buffer.length out in
    if h > 0 && chance c 1 period then begin
      let len = match weighted c [ (3, `S); (2, `M); (2, `X) ] with `S -> range c 3 12 | `M -> range c 3 258 | `X -> 258 in
      let dmax = min h 32768 in
      let dist = match weighted c [ (3, `One); (2, `Near); (2, `Any); (1, `Max) ] with
        | `One -> 1 | `Near -> range c 1 (min dmax 20) | `Any -> range c 1 dmax | `Max -> dmax in
      toks := Match (len, dist) :: !toks;
      for i = 0 to len - 1 do Buffer.add_char out (Buffer.nth out (h - dist + i)) done
    end else begin
      let v = draw c 255 in
      toks := Lit v :: !toks; Buffer.add_char out (Char.chr v)
    end
  done;
  List.rev !toks

let write_block w toks lit dist =
  List.iter (function
    | Lit v -> put_code w lit.(v)
    | Match (l, d) ->
      let lc = len_code l in
      put_code w lit.(257 + lc); put w (l - len_base.(lc)) len_extra.(lc);
      let dc = dist_code d in
      put_code w dist.(dc); put w (d - dist_base.(dc)) dist_extra.(dc)) toks;
  put_code w lit.(256)

(* returns (stream, expected output) *)
let gen_stream c ~zlib ~size =
  let w = bw () in
  let out = Buffer.create 1000 in
  let nblocks = range c 1 5 in
  for bno = 1 to nblocks do
    put w (if bno = nblocks then 1 else 0) 1;
    match weighted c [ (2, `Stored); (3, `Fixed); (5, `Dynamic) ] with
    | `Stored ->
      put w 0 2; align w;
      let n = match weighted c [ (1, `Z); (4, `S); ((if size > 1000 then 1 else 0), `Big) ] with
        | `Z -> 0 | `S -> range c 0 (min size 300) | `Big -> range c 0 65535 in
      let d = bytes_n c n in
      put w n 16; put w (n lxor 0xFFFF) 16;
      String.iter (fun ch -> put w (Char.code ch) 8) d;
      Buffer.add_string out d
    | `Fixed ->
      put w 1 2;
      let toks = gen_tokens c out (range c 0 (min size 120)) in
      write_block w toks (canonical (Array.init 288 (fun i -> if i < 144 then 8 else if i < 256 then 9 else if i < 280 then 7 else 8)))
        (canonical (Array.make 30 5))
    | `Dynamic ->
      put w 2 2;
      let toks = gen_tokens c out (range c 0 (min size 120)) in
      let lu = Array.make 286 false and du = Array.make 30 false in
      lu.(256) <- true;
      List.iter (function Lit v -> lu.(v) <- true
        | Match (l, d) -> lu.(257 + len_code l) <- true; du.(dist_code d) <- true) toks;
      (* extra unused symbols *)
      for _ = 1 to range c 0 5 do lu.(draw c 285) <- true done;
      if chance c 1 3 then du.(draw c 29) <- true;
      let list a = List.filter (fun i -> a.(i)) (List.init (Array.length a) (fun i -> i)) in
      let ll = list lu in
      let ll = if List.length ll = 1 && bool c then 0 :: ll else ll in
      let lit_lens = assign_lens c 286 ll 15 in
      let dl = list du in
      let dist_lens = if dl = [] then Array.make 30 0 else assign_lens c 30 dl 15 in
      let top a mn = let r = ref mn in Array.iteri (fun i l -> if l > 0 && i + 1 > !r then r := i + 1) a; !r in
      let nlen = top lit_lens 257 and ndist = top dist_lens 1 in
      let nlen = if chance c 1 4 then 286 else nlen and ndist = if chance c 1 4 then 30 else ndist in
      let all = Array.append (Array.sub lit_lens 0 nlen) (Array.sub dist_lens 0 ndist) in
      (* run-length encode *)
      let rle = bool c in
      let items = ref [] and i = ref 0 and n = Array.length all in
      while !i < n do
        let v = all.(!i) in
        let run = ref 1 in
        while !i + !run < n && all.(!i + !run) = v do incr run done;
        if rle && v = 0 && !run >= 11 then (let r = min !run 138 in items := (18, r - 11, 7) :: !items; i := !i + r)
        else if rle && v = 0 && !run >= 3 then (let r = min !run 10 in items := (17, r - 3, 3) :: !items; i := !i + r)
        else if rle && !i > 0 && all.(!i - 1) = v && !run >= 3 then (let r = min !run 6 in items := (16, r - 3, 2) :: !items; i := !i + r)
        else (items := (v, 0, 0) :: !items; incr i)
      done;
      let items = List.rev !items in
      let cu = Array.make 19 false in
      List.iter (fun (s, _, _) -> cu.(s) <- true) items;
      let cl = list cu in
      let cl = match cl with [ x ] -> if x = 0 then [ 0; 1 ] else [ 0; x ] | l -> l in
      let cl_lens = assign_lens c 19 cl 7 in
      let ncode = ref 4 in
      Array.iteri (fun i s -> if cl_lens.(s) > 0 then ncode := max !ncode (i + 1)) cl_order;
      put w (nlen - 257) 5; put w (ndist - 1) 5; put w (!ncode - 4) 4;
      for i = 0 to !ncode - 1 do put w cl_lens.(cl_order.(i)) 3 done;
      let cc = canonical cl_lens in
      List.iter (fun (s, ex, nb) -> put_code w cc.(s); put w ex nb) items;
      write_block w toks (canonical lit_lens) (canonical dist_lens)
  done;
  let body = close w in
  let o = Buffer.contents out in
  if not zlib then (body, o)
  else begin
    (* the window size announced must cover the output; the check bits complete the second byte *)
    let w = if chance c 1 3 then (let w = ref 0 in while (256 lsl !w) < String.length o && !w < 7 do incr w done; range c !w 7) else 7 in
    let cmf = (w lsl 4) lor 8 in
    let flg0 = draw c 3 lsl 6 in
    let flg = flg0 + (31 - (cmf * 256 + flg0) mod 31) mod 31 in
    let t = Bytes.create 4 in
    Refs.put_be32 t 0 (Refs.adler32 o);
    (String.make 1 (Char.chr cmf) ^ String.make 1 (Char.chr flg) ^ body ^ Bytes.to_string t, o)
  end

let crc32 s =
  let r = ref 0xFFFFFFFF in
  String.iter (fun ch ->
    r := !r lxor Char.code ch;
    for _ = 1 to 8 do r := if !r land 1 = 1 then (!r lsr 1) lxor 0xEDB88320 else !r lsr 1 done) s;
  !r lxor 0xFFFFFFFF

(* the same data in another container: gzip (RFC 1952) *)
let gen_gzip c ~size =
  let (body, o) = gen_stream c ~zlib:false ~size in
  let flg = if bool c then 0 else draw c 31 in
  let b = Buffer.create 100 in
  Buffer.add_string b "\x1f\x8b\x08"; Buffer.add_char b (Char.chr flg);
  Buffer.add_string b (bytes_n c 4); Buffer.add_string b "\000\003";
  if flg land 4 <> 0 then (let n = draw c 9 in Buffer.add_char b (Char.chr n); Buffer.add_char b '\000'; Buffer.add_string b (bytes_n c n));
  if flg land 8 <> 0 then Buffer.add_string b "name\000";
  if flg land 16 <> 0 then Buffer.add_string b "comment\000";
  if flg land 2 <> 0 then (let k = crc32 (Buffer.contents b) in Buffer.add_char b (Char.chr (k land 255)); Buffer.add_char b (Char.chr ((k lsr 8) land 255)));
  Buffer.add_string b body;
  let le v = for i = 0 to 3 do Buffer.add_char b (Char.chr ((v lsr (8 * i)) land 255)) done in
  le (crc32 o); le (String.length o land 0xFFFFFFFF);
  Buffer.contents b
