(* Independent reference implementations, written from the standards.
   Clarity over speed.  Constants are derived from their definitions wherever
   the standard gives one (S-box of AES, constants of SHA-2, MD5, Keccak,
   pi for Blowfish). *)

let m32 = 0xFFFFFFFF
let rotl32 x n = ((x lsl n) lor (x lsr (32 - n))) land m32
let rotr32 x n = rotl32 x (32 - n)
let xor_str a b = String.init (String.length a) (fun i -> Char.chr (Char.code a.[i] lxor Char.code b.[i]))
let get s i = Char.code (String.unsafe_get s i)
let be32 s o = (Char.code s.[o] lsl 24) lor (Char.code s.[o+1] lsl 16) lor (Char.code s.[o+2] lsl 8) lor Char.code s.[o+3]
let le32 s o = (Char.code s.[o+3] lsl 24) lor (Char.code s.[o+2] lsl 16) lor (Char.code s.[o+1] lsl 8) lor Char.code s.[o]
let put_be32 b o v = for i = 0 to 3 do Bytes.set b (o+i) (Char.chr ((v lsr (24 - 8*i)) land 255)) done
let put_le32 b o v = for i = 0 to 3 do Bytes.set b (o+i) (Char.chr ((v lsr (8*i)) land 255)) done

(* big-endian strings and naturals *)
let z_of_be s =
  let r = ref Z.zero in
  String.iter (fun c -> r := Z.add (Z.shift_left !r 8) (Z.of_int (Char.code c))) s; !r
let z_to_be n z =
  String.init n (fun i -> Char.chr (Z.to_int (Z.logand (Z.shift_right z (8 * (n - 1 - i))) (Z.of_int 255))))
let z_of_le s =
  let r = ref Z.zero in
  for i = String.length s - 1 downto 0 do r := Z.add (Z.shift_left !r 8) (Z.of_int (Char.code s.[i])) done; !r
let z_to_le n z =
  String.init n (fun i -> Char.chr (Z.to_int (Z.logand (Z.shift_right z (8 * i)) (Z.of_int 255))))

(* square-and-multiply, written out so as not to rely on any modpow primitive *)
let powmod a e m =
  let rec go acc b e =
    if Z.sign e = 0 then acc
    else
      let acc = if Z.testbit e 0 then Z.erem (Z.mul acc b) m else acc in
      go acc (Z.erem (Z.mul b b) m) (Z.shift_right e 1) in
  Z.erem (go Z.one (Z.erem a m) e) m

let primes = 
  let rec gen n acc k = if k = 0 then List.rev acc else
    let rec is d = d * d > n || (n mod d <> 0 && is (d + 1)) in
    if is 2 then gen (n + 1) (n :: acc) (k - 1) else gen (n + 1) acc k in
  Array.of_list (gen 2 [] 80)
(* first [bits] fractional bits of the [k]-th root of p *)
let frac_root k p bits =
  let z = Z.root (Z.shift_left (Z.of_int p) (k * bits)) k in
  Z.extract z 0 bits

(* ================= AES ================= *)
module Aes = struct
  let xtime a = let b = a lsl 1 in if b land 0x100 <> 0 then (b lxor 0x11b) land 255 else b
  let gmul a b =
    let rec go a b acc = if b = 0 then acc else go (xtime a) (b lsr 1) (if b land 1 = 1 then acc lxor a else acc) in
    go a b 0
  let sbox =
    Array.init 256 (fun a ->
      let inv = if a = 0 then 0 else (let r = ref 0 in for x = 1 to 255 do if gmul a x = 1 then r := x done; !r) in
      let rot x n = ((x lsl n) lor (x lsr (8 - n))) land 255 in
      inv lxor rot inv 1 lxor rot inv 2 lxor rot inv 3 lxor rot inv 4 lxor 0x63)
  let inv_sbox = let t = Array.make 256 0 in Array.iteri (fun i v -> t.(v) <- i) sbox; t
  let mul_t = Array.init 16 (fun a -> Array.init 256 (fun b -> gmul a b))
  let expand key =
    let nk = String.length key / 4 in
    let nr = nk + 6 in
    let w = Array.make (16 * (nr + 1)) 0 in
    String.iteri (fun i c -> w.(i) <- Char.code c) key;
    let rcon = ref 1 in
    for i = nk to 4 * (nr + 1) - 1 do
      let t = Array.sub w (4 * (i - 1)) 4 in
      let t =
        if i mod nk = 0 then begin
          let r = Array.init 4 (fun j -> sbox.(t.((j + 1) land 3))) in
          r.(0) <- r.(0) lxor !rcon; rcon := xtime !rcon; r
        end else if nk > 6 && i mod nk = 4 then Array.map (fun x -> sbox.(x)) t
        else t in
      for j = 0 to 3 do w.(4 * i + j) <- w.(4 * (i - nk) + j) lxor t.(j) done
    done;
    (nr, w)
  let add_rk st w r = for i = 0 to 15 do st.(i) <- st.(i) lxor w.(16 * r + i) done
  let encrypt (nr, w) blk =
    let st = Array.init 16 (fun i -> Char.code blk.[i]) in
    add_rk st w 0;
    for r = 1 to nr do
      let t = Array.map (fun x -> sbox.(x)) st in
      (* shift rows: byte (row, col) at index row + 4*col *)
      let s2 = Array.init 16 (fun i -> let row = i land 3 and col = i lsr 2 in t.(row + 4 * ((col + row) land 3))) in
      if r < nr then
        for c = 0 to 3 do
          let a i = s2.(4 * c + (i land 3)) in
          for i = 0 to 3 do
            st.(4 * c + i) <- mul_t.(2).(a i) lxor mul_t.(3).(a (i + 1)) lxor a (i + 2) lxor a (i + 3)
          done
        done
      else Array.blit s2 0 st 0 16;
      add_rk st w r
    done;
    String.init 16 (fun i -> Char.chr st.(i))
  let decrypt (nr, w) blk =
    let st = Array.init 16 (fun i -> Char.code blk.[i]) in
    add_rk st w nr;
    for r = nr - 1 downto 0 do
      let s2 = Array.init 16 (fun i -> let row = i land 3 and col = i lsr 2 in st.(row + 4 * ((col - row) land 3))) in
      for i = 0 to 15 do st.(i) <- inv_sbox.(s2.(i)) done;
      add_rk st w r;
      if r > 0 then begin
        let s3 = Array.copy st in
        for c = 0 to 3 do
          let a i = s3.(4 * c + (i land 3)) in
          for i = 0 to 3 do
            st.(4 * c + i) <- mul_t.(14).(a i) lxor mul_t.(11).(a (i + 1)) lxor mul_t.(13).(a (i + 2)) lxor mul_t.(9).(a (i + 3))
          done
        done
      end
    done;
    String.init 16 (fun i -> Char.chr st.(i))
  let enc key = let k = expand key in encrypt k
  let dec key = let k = expand key in decrypt k
end

(* ================= DES ================= *)
module Des = struct
  let ip = [|58;50;42;34;26;18;10;2;60;52;44;36;28;20;12;4;62;54;46;38;30;22;14;6;64;56;48;40;32;24;16;8;
             57;49;41;33;25;17;9;1;59;51;43;35;27;19;11;3;61;53;45;37;29;21;13;5;63;55;47;39;31;23;15;7|]
  let fp = let t = Array.make 64 0 in Array.iteri (fun i v -> t.(v - 1) <- i + 1) ip; t
  let e = Array.init 48 (fun i -> let g = i / 6 and j = i mod 6 in ((4 * g + j - 1 + 32) mod 32) + 1)
  let p = [|16;7;20;21;29;12;28;17;1;15;23;26;5;18;31;10;2;8;24;14;32;27;3;9;19;13;30;6;22;11;4;25|]
  let pc1 = [|57;49;41;33;25;17;9;1;58;50;42;34;26;18;10;2;59;51;43;35;27;19;11;3;60;52;44;36;
              63;55;47;39;31;23;15;7;62;54;46;38;30;22;14;6;61;53;45;37;29;21;13;5;28;20;12;4|]
  let pc2 = [|14;17;11;24;1;5;3;28;15;6;21;10;23;19;12;4;26;8;16;7;27;20;13;2;
              41;52;31;37;47;55;30;40;51;45;33;48;44;49;39;56;34;53;46;42;50;36;29;32|]
  let shifts = [|1;1;2;2;2;2;2;2;1;2;2;2;2;2;2;1|]
  let sb = [|
   [|14;4;13;1;2;15;11;8;3;10;6;12;5;9;0;7;0;15;7;4;14;2;13;1;10;6;12;11;9;5;3;8;4;1;14;8;13;6;2;11;15;12;9;7;3;10;5;0;15;12;8;2;4;9;1;7;5;11;3;14;10;0;6;13|];
   [|15;1;8;14;6;11;3;4;9;7;2;13;12;0;5;10;3;13;4;7;15;2;8;14;12;0;1;10;6;9;11;5;0;14;7;11;10;4;13;1;5;8;12;6;9;3;2;15;13;8;10;1;3;15;4;2;11;6;7;12;0;5;14;9|];
   [|10;0;9;14;6;3;15;5;1;13;12;7;11;4;2;8;13;7;0;9;3;4;6;10;2;8;5;14;12;11;15;1;13;6;4;9;8;15;3;0;11;1;2;12;5;10;14;7;1;10;13;0;6;9;8;7;4;15;14;3;11;5;2;12|];
   [|7;13;14;3;0;6;9;10;1;2;8;5;11;12;4;15;13;8;11;5;6;15;0;3;4;7;2;12;1;10;14;9;10;6;9;0;12;11;7;13;15;1;3;14;5;2;8;4;3;15;0;6;10;1;13;8;9;4;5;11;12;7;2;14|];
   [|2;12;4;1;7;10;11;6;8;5;3;15;13;0;14;9;14;11;2;12;4;7;13;1;5;0;15;10;3;9;8;6;4;2;1;11;10;13;7;8;15;9;12;5;6;3;0;14;11;8;12;7;1;14;2;13;6;15;0;9;10;4;5;3|];
   [|12;1;10;15;9;2;6;8;0;13;3;4;14;7;5;11;10;15;4;2;7;12;9;5;6;1;13;14;0;11;3;8;9;14;15;5;2;8;12;3;7;0;4;10;1;13;11;6;4;3;2;12;9;5;15;10;11;14;1;7;6;0;8;13|];
   [|4;11;2;14;15;0;8;13;3;12;9;7;5;10;6;1;13;0;11;7;4;9;1;10;14;3;5;12;2;15;8;6;1;4;11;13;12;3;7;14;10;15;6;8;0;5;9;2;6;11;13;8;1;4;10;7;9;5;0;15;14;2;3;12|];
   [|13;2;8;4;6;15;11;1;10;9;3;14;5;0;12;7;1;15;13;8;10;3;7;4;12;5;6;11;0;14;9;2;7;11;4;1;9;12;14;2;0;6;10;13;15;3;5;8;2;1;14;7;4;10;8;13;15;12;9;0;3;5;6;11|] |]
  let bits s = Array.init 64 (fun i -> (Char.code s.[i / 8] lsr (7 - i land 7)) land 1)
  let perm t a = Array.map (fun i -> a.(i - 1)) t
  let subkeys key =
    let cd = perm pc1 (bits key) in
    let c = ref (Array.sub cd 0 28) and d = ref (Array.sub cd 28 28) in
    let rot a n = Array.init 28 (fun i -> a.((i + n) mod 28)) in
    Array.map (fun n -> c := rot !c n; d := rot !d n; perm pc2 (Array.append !c !d)) shifts
  let f r k =
    let x = Array.mapi (fun i b -> b lxor k.(i)) (perm e r) in
    let out = Array.make 32 0 in
    for g = 0 to 7 do
      let b i = x.(6 * g + i) in
      let row = 2 * b 0 + b 5 and col = 8 * b 1 + 4 * b 2 + 2 * b 3 + b 4 in
      let v = sb.(g).(16 * row + col) in
      for j = 0 to 3 do out.(4 * g + j) <- (v lsr (3 - j)) land 1 done
    done;
    perm p out
  let crypt ks blk =
    let b = perm ip (bits blk) in
    let l = ref (Array.sub b 0 32) and r = ref (Array.sub b 32 32) in
    Array.iter (fun k ->
      let nr = Array.mapi (fun i x -> x lxor !l.(i)) (f !r k) in
      l := !r; r := nr) ks;
    let o = perm fp (Array.append !r !l) in
    String.init 8 (fun i -> let v = ref 0 in for j = 0 to 7 do v := 2 * !v + o.(8 * i + j) done; Char.chr !v)
  let rev a = let n = Array.length a in Array.init n (fun i -> a.(n - 1 - i))
  let enc key = let ks = subkeys key in crypt ks
  let dec key = let ks = rev (subkeys key) in crypt ks
  let enc3 key =
    let k1 = String.sub key 0 8 and k2 = String.sub key 8 8 in
    let k3 = if String.length key = 24 then String.sub key 16 8 else k1 in
    let a = enc k1 and b = dec k2 and c = enc k3 in
    fun x -> c (b (a x))
  let dec3 key =
    let k1 = String.sub key 0 8 and k2 = String.sub key 8 8 in
    let k3 = if String.length key = 24 then String.sub key 16 8 else k1 in
    let a = dec k1 and b = enc k2 and c = dec k3 in
    fun x -> a (b (c x))
end

(* ================= Blowfish ================= *)
module Blowfish = struct
  (* fractional bits of pi, by Machin's formula *)
  let pi_words = lazy (
    let n = 18 + 1024 in
    let prec = 32 * n + 64 in
    let one = Z.shift_left Z.one prec in
    let arctan_inv k =
      let k2 = Z.of_int (k * k) in
      let term = ref (Z.div one (Z.of_int k)) and sum = ref Z.zero and i = ref 1 and neg = ref false in
      while Z.sign !term <> 0 do
        let t = Z.div !term (Z.of_int !i) in
        sum := (if !neg then Z.sub !sum t else Z.add !sum t);
        term := Z.div !term k2; i := !i + 2; neg := not !neg
      done; !sum in
    let pi = Z.mul (Z.of_int 4) (Z.sub (Z.mul (Z.of_int 4) (arctan_inv 5)) (arctan_inv 239)) in
    let frac = Z.extract pi 0 prec in
    Array.init n (fun i -> Z.to_int (Z.extract frac (prec - 32 * (i + 1)) 32)))
  type k = { p : int array; s : int array }
  let f k x =
    let a = x lsr 24 and b = (x lsr 16) land 255 and c = (x lsr 8) land 255 and d = x land 255 in
    ((((k.s.(a) + k.s.(256 + b)) land m32) lxor k.s.(512 + c)) + k.s.(768 + d)) land m32
  let enc_words k l r =
    let l = ref l and r = ref r in
    for i = 0 to 15 do
      l := !l lxor k.p.(i);
      r := !r lxor f k !l;
      let t = !l in l := !r; r := t
    done;
    let t = !l in l := !r; r := t;
    (!l lxor k.p.(17), !r lxor k.p.(16))
  let dec_words k l r =
    let l = ref l and r = ref r in
    for i = 17 downto 2 do
      l := !l lxor k.p.(i);
      r := !r lxor f k !l;
      let t = !l in l := !r; r := t
    done;
    let t = !l in l := !r; r := t;
    (!l lxor k.p.(0), !r lxor k.p.(1))
  let expand key =
    let w = Lazy.force pi_words in
    let k = { p = Array.sub w 0 18; s = Array.sub w 18 1024 } in
    let n = String.length key in
    let j = ref 0 in
    for i = 0 to 17 do
      let d = ref 0 in
      for _ = 1 to 4 do d := (!d lsl 8) lor Char.code key.[!j]; j := (!j + 1) mod n done;
      k.p.(i) <- k.p.(i) lxor !d
    done;
    let l = ref 0 and r = ref 0 in
    for i = 0 to 8 do let a, b = enc_words k !l !r in l := a; r := b; k.p.(2*i) <- a; k.p.(2*i+1) <- b done;
    for i = 0 to 511 do let a, b = enc_words k !l !r in l := a; r := b; k.s.(2*i) <- a; k.s.(2*i+1) <- b done;
    k
  let blk f s = let (l, r) = f (be32 s 0) (be32 s 4) in
    let b = Bytes.create 8 in put_be32 b 0 l; put_be32 b 4 r; Bytes.to_string b
  let enc key = let k = expand key in fun s -> blk (enc_words k) s
  let dec key = let k = expand key in fun s -> blk (dec_words k) s
end

(* ================= RC4 ================= *)
let rc4_stream key n =
  let s = Array.init 256 (fun i -> i) in
  let swap i j = let t = s.(i) in s.(i) <- s.(j); s.(j) <- t in
  let j = ref 0 in
  for i = 0 to 255 do
    j := (!j + s.(i) + Char.code key.[i mod String.length key]) land 255; swap i !j
  done;
  let i = ref 0 and j = ref 0 in
  String.init n (fun _ ->
    i := (!i + 1) land 255; j := (!j + s.(!i)) land 255; swap !i !j;
    Char.chr s.((s.(!i) + s.(!j)) land 255))

(* ================= ChaCha20 ================= *)
module Chacha = struct
  let qr x a b c d =
    x.(a) <- (x.(a) + x.(b)) land m32; x.(d) <- rotl32 (x.(d) lxor x.(a)) 16;
    x.(c) <- (x.(c) + x.(d)) land m32; x.(b) <- rotl32 (x.(b) lxor x.(c)) 12;
    x.(a) <- (x.(a) + x.(b)) land m32; x.(d) <- rotl32 (x.(d) lxor x.(a)) 8;
    x.(c) <- (x.(c) + x.(d)) land m32; x.(b) <- rotl32 (x.(b) lxor x.(c)) 7
  let block st =
    let x = Array.copy st in
    for _ = 1 to 10 do
      qr x 0 4 8 12; qr x 1 5 9 13; qr x 2 6 10 14; qr x 3 7 11 15;
      qr x 0 5 10 15; qr x 1 6 11 12; qr x 2 7 8 13; qr x 3 4 9 14
    done;
    let b = Bytes.create 64 in
    for i = 0 to 15 do put_le32 b (4 * i) ((x.(i) + st.(i)) land m32) done;
    Bytes.unsafe_to_string b
  (* counter: 64-bit for an 8-byte iv, 32-bit for a 12-byte iv *)
  let block_at key iv ctr =
    let k = String.length key in
    let cst = if k = 32 then "expand 32-byte k" else "expand 16-byte k" in
    let st = Array.make 16 0 in
    for i = 0 to 3 do st.(i) <- le32 cst (4 * i) done;
    for i = 0 to 3 do st.(4 + i) <- le32 key (4 * i) done;
    for i = 0 to 3 do st.(8 + i) <- le32 key ((if k = 32 then 16 else 0) + 4 * i) done;
    st.(12) <- Int64.to_int (Int64.logand ctr 0xFFFFFFFFL);
    if String.length iv = 8 then begin
      st.(13) <- Int64.to_int (Int64.shift_right_logical ctr 32);
      st.(14) <- le32 iv 0; st.(15) <- le32 iv 4
    end else begin
      st.(13) <- le32 iv 0; st.(14) <- le32 iv 4; st.(15) <- le32 iv 8
    end;
    block st
  let stream key iv ctr n =
    let b = Buffer.create (n + 64) in
    let c = ref ctr in
    while Buffer.length b < n do
      Buffer.add_string b (block_at key iv !c); c := Int64.add !c 1L
    done;
    Buffer.sub b 0 n
end

(* ================= Poly1305 ================= *)
let poly1305 key msg =
  let p = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5) in
  let r = Z.logand (z_of_le (String.sub key 0 16)) (Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff") in
  let s = z_of_le (String.sub key 16 16) in
  let acc = ref Z.zero in
  let n = String.length msg in
  let i = ref 0 in
  while !i < n do
    let l = min 16 (n - !i) in
    let blk = Z.add (z_of_le (String.sub msg !i l)) (Z.shift_left Z.one (8 * l)) in
    acc := Z.rem (Z.mul (Z.add !acc blk) r) p;
    i := !i + l
  done;
  z_to_le 16 (Z.add !acc s)

(* ================= GHASH ================= *)
module Gf = struct
  (* elements of GF(2^128) as (hi, lo) in GCM's reflected bit order: bit 0 of
     the polynomial is the most significant bit of byte 0 *)
  type t = int64 * int64
  let of_s s o = (String.get_int64_be s o, String.get_int64_be s (o + 8))
  let to_s (h, l) = let b = Bytes.create 16 in Bytes.set_int64_be b 0 h; Bytes.set_int64_be b 8 l; Bytes.to_string b
  let xor (a, b) (c, d) = (Int64.logxor a c, Int64.logxor b d)
  let mul ((xh, xl) : t) ((yh, yl) : t) : t =
    let zh = ref 0L and zl = ref 0L and vh = ref yh and vl = ref yl in
    for i = 0 to 127 do
      let bit = if i < 64 then Int64.logand (Int64.shift_right_logical xh (63 - i)) 1L
        else Int64.logand (Int64.shift_right_logical xl (127 - i)) 1L in
      if bit = 1L then (zh := Int64.logxor !zh !vh; zl := Int64.logxor !zl !vl);
      let lsb = Int64.logand !vl 1L in
      vl := Int64.logor (Int64.shift_right_logical !vl 1) (Int64.shift_left !vh 63);
      vh := Int64.shift_right_logical !vh 1;
      if lsb = 1L then vh := Int64.logxor !vh 0xE100000000000000L
    done;
    (!zh, !zl)
  let one : t = (0x8000000000000000L, 0L)
  (* x^(2^128 - 2) *)
  let inv x =
    let r = ref one and b = ref x in
    for i = 0 to 127 do
      if i > 0 then r := mul !r !b;
      b := mul !b !b
    done;
    !r
end
let pad16 s = let n = String.length s land 15 in if n = 0 then s else s ^ String.make (16 - n) '\000'
let ghash h s =
  let y = ref (0L, 0L) in
  let i = ref 0 in
  while !i < String.length s do
    y := Gf.mul (Gf.xor !y (Gf.of_s s !i)) h; i := !i + 16
  done; !y
(* sparse inputs: strings (whole blocks, but for the last) and runs of zero blocks *)
type run = Str of string | Zeros of int      (* number of zero blocks of 16 bytes *)
let run_len l = List.fold_left (fun a -> function Str s -> a + String.length s | Zeros k -> a + 16 * k) 0 l
let gf_pow x k =
  let r = ref Gf.one and b = ref x and k = ref k in
  while !k > 0 do
    if !k land 1 = 1 then r := Gf.mul !r !b;
    b := Gf.mul !b !b; k := !k lsr 1
  done; !r
let ghash_runs h l =
  List.fold_left (fun y -> function
    | Zeros k -> Gf.mul y (gf_pow h k)
    | Str s ->
      let s = pad16 s in
      let y = ref y and i = ref 0 in
      while !i < String.length s do y := Gf.mul (Gf.xor !y (Gf.of_s s !i)) h; i := !i + 16 done; !y) (0L, 0L) l
let poly1305_runs key l =
  let p = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5) in
  let r = Z.logand (z_of_le (String.sub key 0 16)) (Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff") in
  let s = z_of_le (String.sub key 16 16) in
  let top = Z.shift_left Z.one 128 in
  let acc = List.fold_left (fun acc -> function
    | Zeros k ->
      let rk = Z.powm r (Z.of_int k) p in
      let geo = if Z.equal r Z.one then Z.of_int k else if Z.equal r Z.zero then Z.zero
        else Z.rem (Z.mul (Z.mul r (Z.erem (Z.sub rk Z.one) p)) (Z.invert (Z.erem (Z.sub r Z.one) p) p)) p in
      Z.erem (Z.add (Z.mul acc rk) (Z.mul top geo)) p
    | Str m ->
      let m = pad16 m in
      let acc = ref acc and i = ref 0 in
      while !i < String.length m do
        acc := Z.rem (Z.mul (Z.add !acc (Z.add (z_of_le (String.sub m !i 16)) top)) r) p; i := !i + 16
      done; !acc) Z.zero l in
  z_to_le 16 (Z.add acc s)
let be64 n = z_to_be 8 (Z.of_int n)
let le64 n = z_to_le 8 (Z.of_int n)
let inc32 s =
  let c = (be32 s 12 + 1) land m32 in
  let b = Bytes.of_string s in put_be32 b 12 c; Bytes.to_string b
let gcm_j0 aes iv =
  let h = Gf.of_s (aes (String.make 16 '\000')) 0 in
  if String.length iv = 12 then iv ^ "\000\000\000\001"
  else Gf.to_s (ghash h (pad16 iv ^ String.make 8 '\000' ^ be64 (8 * String.length iv)))
(* CTR with inc32 and tag; dir-independent on the keystream *)
let gcm_ctr aes j0 data =
  let n = String.length data in
  let out = Buffer.create n in
  let c = ref j0 and i = ref 0 in
  while !i < n do
    c := inc32 !c;
    let l = min 16 (n - !i) in
    let ks = aes !c in
    Buffer.add_string out (xor_str (String.sub data !i l) ks); i := !i + l
  done;
  Buffer.contents out
let gcm_tag aes j0 header ct =
  let h = Gf.of_s (aes (String.make 16 '\000')) 0 in
  let s = ghash h (pad16 header ^ pad16 ct ^ be64 (8 * String.length header) ^ be64 (8 * String.length ct)) in
  xor_str (Gf.to_s s) (aes j0)
let gcm_j0_runs aes iv =
  let h = Gf.of_s (aes (String.make 16 '\000')) 0 in
  Gf.to_s (ghash_runs h (iv @ [ Str (String.make 8 '\000' ^ be64 (8 * run_len iv)) ]))
let gcm_tag_runs aes j0 header ct =
  let h = Gf.of_s (aes (String.make 16 '\000')) 0 in
  let s = ghash_runs h (header @ ct @ [ Str (be64 (8 * run_len header) ^ be64 (8 * run_len ct)) ]) in
  xor_str (Gf.to_s s) (aes j0)
let chapoly_tag_runs key iv header ct =
  let otk = String.sub (Chacha.block_at key iv 0L) 0 32 in
  poly1305_runs otk (header @ ct @ [ Str (le64 (run_len header) ^ le64 (run_len ct)) ])
let gcm_encrypt key iv header msg =
  let aes = Aes.enc key in
  let j0 = gcm_j0 aes iv in
  let ct = gcm_ctr aes j0 msg in
  (ct, gcm_tag aes j0 header ct)
let chapoly_tag key iv header ct =
  let otk = String.sub (Chacha.block_at key iv 0L) 0 32 in
  poly1305 otk (pad16 header ^ pad16 ct ^ le64 (String.length header) ^ le64 (String.length ct))
let chapoly_encrypt key iv header msg =
  let ct = xor_str msg (Chacha.stream key iv 1L (String.length msg)) in
  (ct, chapoly_tag key iv header ct)

(* ================= Merkle-Damgard hashes ================= *)
(* streaming driver: [prod feed] calls feed on successive pieces *)
let md ~block ~lenbytes ~be compress finish (prod : (string -> unit) -> unit) =
  let buf = Bytes.create block and used = ref 0 and total = ref 0 in
  let feed s =
    let n = String.length s in
    total := !total + n;
    let i = ref 0 in
    if !used > 0 then begin
      let l = min n (block - !used) in
      Bytes.blit_string s 0 buf !used l; used := !used + l; i := l;
      if !used = block then (compress (Bytes.unsafe_to_string buf) 0; used := 0)
    end;
    while !i + block <= n do compress s !i; i := !i + block done;
    if !i < n then (Bytes.blit_string s !i buf !used (n - !i); used := !used + n - !i) in
  prod feed;
  let bits = Z.mul (Z.of_int !total) (Z.of_int 8) in
  let z = (block - lenbytes - 1 - !used) in
  let z = if z < 0 then z + block else z in
  let t = !total in
  feed ("\128" ^ String.make z '\000' ^ (if be then z_to_be lenbytes bits else z_to_le lenbytes bits));
  ignore t; assert (!used = 0);
  finish ()
let once h s = h (fun feed -> feed s)

let out_be32 a n = let b = Bytes.create (4 * Array.length a) in Array.iteri (fun i v -> put_be32 b (4*i) v) a; Bytes.sub_string b 0 n
let out_le32 a n = let b = Bytes.create (4 * Array.length a) in Array.iteri (fun i v -> put_le32 b (4*i) v) a; Bytes.sub_string b 0 n

external sget32 : string -> int -> int32 = "%caml_string_get32u"
external bswap32 : int32 -> int32 = "%bswap_int32"
let rd_be s o = Int32.to_int (bswap32 (sget32 s o)) land m32
let rd_le s o = Int32.to_int (sget32 s o) land m32

let sha1_p prod =
  let h = [| 0x67452301; 0xEFCDAB89; 0x98BADCFE; 0x10325476; 0xC3D2E1F0 |] in
  let w = Array.make 80 0 in
  let compress s o =
    for t = 0 to 15 do w.(t) <- rd_be s (o + 4 * t) done;
    for t = 16 to 79 do w.(t) <- rotl32 (w.(t-3) lxor w.(t-8) lxor w.(t-14) lxor w.(t-16)) 1 done;
    let a = ref h.(0) and b = ref h.(1) and c = ref h.(2) and d = ref h.(3) and e = ref h.(4) in
    for t = 0 to 79 do
      let f = if t < 20 then (!b land !c) lor ((lnot !b) land !d) land m32
        else if t < 40 then !b lxor !c lxor !d
        else if t < 60 then (!b land !c) lor (!b land !d) lor (!c land !d)
        else !b lxor !c lxor !d in
      let k = if t < 20 then 0x5A827999 else if t < 40 then 0x6ED9EBA1 else if t < 60 then 0x8F1BBCDC else 0xCA62C1D6 in
      let tmp = (rotl32 !a 5 + (f land m32) + !e + k + w.(t)) land m32 in
      e := !d; d := !c; c := rotl32 !b 30; b := !a; a := tmp
    done;
    h.(0) <- (h.(0) + !a) land m32; h.(1) <- (h.(1) + !b) land m32; h.(2) <- (h.(2) + !c) land m32;
    h.(3) <- (h.(3) + !d) land m32; h.(4) <- (h.(4) + !e) land m32 in
  md ~block:64 ~lenbytes:8 ~be:true compress (fun () -> out_be32 h 20) prod

let sha256_k = Array.init 64 (fun i -> Z.to_int (frac_root 3 primes.(i) 32))
let sha256_gen iv n prod =
  let h = Array.copy iv in
  let w = Array.make 64 0 in
  let compress s o =
    for t = 0 to 15 do w.(t) <- rd_be s (o + 4 * t) done;
    for t = 16 to 63 do
      let x = w.(t-15) and y = w.(t-2) in
      let s0 = rotr32 x 7 lxor rotr32 x 18 lxor (x lsr 3) and s1 = rotr32 y 17 lxor rotr32 y 19 lxor (y lsr 10) in
      w.(t) <- (w.(t-16) + s0 + w.(t-7) + s1) land m32
    done;
    let a = ref h.(0) and b = ref h.(1) and c = ref h.(2) and d = ref h.(3)
    and e = ref h.(4) and f = ref h.(5) and g = ref h.(6) and hh = ref h.(7) in
    for t = 0 to 63 do
      let s1 = rotr32 !e 6 lxor rotr32 !e 11 lxor rotr32 !e 25 in
      let ch = (!e land !f) lxor ((lnot !e) land m32 land !g) in
      let t1 = !hh + s1 + ch + sha256_k.(t) + w.(t) in
      let s0 = rotr32 !a 2 lxor rotr32 !a 13 lxor rotr32 !a 22 in
      let mj = (!a land !b) lxor (!a land !c) lxor (!b land !c) in
      let t2 = s0 + mj in
      hh := !g; g := !f; f := !e; e := (!d + t1) land m32; d := !c; c := !b; b := !a; a := (t1 + t2) land m32
    done;
    List.iteri (fun i v -> h.(i) <- (h.(i) + v) land m32) [ !a; !b; !c; !d; !e; !f; !g; !hh ] in
  md ~block:64 ~lenbytes:8 ~be:true compress (fun () -> out_be32 h n) prod
let sha256_iv = Array.init 8 (fun i -> Z.to_int (frac_root 2 primes.(i) 32))
let sha224_iv = Array.init 8 (fun i -> Z.to_int (Z.extract (frac_root 2 primes.(i + 8) 64) 0 32))
let sha256_p = sha256_gen sha256_iv 32
let sha224_p = sha256_gen sha224_iv 28

let z64 z = Z.to_int64 (Z.signed_extract z 0 64)
let sha512_k = Array.init 80 (fun i -> z64 (frac_root 3 primes.(i) 64))
let sha512_iv = Array.init 8 (fun i -> z64 (frac_root 2 primes.(i) 64))
let sha384_iv = Array.init 8 (fun i -> z64 (frac_root 2 primes.(i + 8) 64))
let rotr64 x n = Int64.logor (Int64.shift_right_logical x n) (Int64.shift_left x (64 - n))
let rotl64 x n = rotr64 x (64 - n)
let out_be64 a n = let b = Bytes.create (8 * Array.length a) in Array.iteri (fun i v -> Bytes.set_int64_be b (8*i) v) a; Bytes.sub_string b 0 n
let out_le64 a n = let b = Bytes.create (8 * Array.length a) in Array.iteri (fun i v -> Bytes.set_int64_le b (8*i) v) a; Bytes.sub_string b 0 n
let sha512_gen iv n prod =
  let open Int64 in
  let h = Array.copy iv in
  let w = Array.make 80 0L in
  let (++) = add and (^^) = logxor in
  let compress s o =
    for t = 0 to 15 do w.(t) <- String.get_int64_be s Stdlib.(o + 8 * t) done;
    for t = 16 to 79 do
      let x = w.(t-15) and y = w.(t-2) in
      let s0 = rotr64 x 1 ^^ rotr64 x 8 ^^ shift_right_logical x 7
      and s1 = rotr64 y 19 ^^ rotr64 y 61 ^^ shift_right_logical y 6 in
      w.(t) <- w.(t-16) ++ s0 ++ w.(t-7) ++ s1
    done;
    let v = Array.copy h in
    for t = 0 to 79 do
      let a = v.(0) and b = v.(1) and c = v.(2) and d = v.(3) and e = v.(4) and f = v.(5) and g = v.(6) and hh = v.(7) in
      let s1 = rotr64 e 14 ^^ rotr64 e 18 ^^ rotr64 e 41 in
      let ch = (logand e f) ^^ (logand (lognot e) g) in
      let t1 = hh ++ s1 ++ ch ++ sha512_k.(t) ++ w.(t) in
      let s0 = rotr64 a 28 ^^ rotr64 a 34 ^^ rotr64 a 39 in
      let mj = (logand a b) ^^ (logand a c) ^^ (logand b c) in
      v.(7) <- g; v.(6) <- f; v.(5) <- e; v.(4) <- d ++ t1; v.(3) <- c; v.(2) <- b; v.(1) <- a; v.(0) <- t1 ++ s0 ++ mj
    done;
    Array.iteri (fun i x -> h.(i) <- h.(i) ++ x) v in
  md ~block:128 ~lenbytes:16 ~be:true compress (fun () -> out_be64 h n) prod
let sha512_p = sha512_gen sha512_iv 64
let sha384_p = sha512_gen sha384_iv 48

let md5_t = Array.init 64 (fun i -> int_of_float (floor (abs_float (sin (float (i + 1))) *. 4294967296.)))
let md5_s = [| 7;12;17;22; 5;9;14;20; 4;11;16;23; 6;10;15;21 |]
let md5_p prod =
  let h = [| 0x67452301; 0xEFCDAB89; 0x98BADCFE; 0x10325476 |] in
  let x = Array.make 16 0 in
  let compress s o =
    for t = 0 to 15 do x.(t) <- rd_le s (o + 4 * t) done;
    let a = ref h.(0) and b = ref h.(1) and c = ref h.(2) and d = ref h.(3) in
    for i = 0 to 63 do
      let r = i / 16 in
      let f = match r with 0 -> (!b land !c) lor ((lnot !b) land !d) | 1 -> (!b land !d) lor (!c land (lnot !d))
        | 2 -> !b lxor !c lxor !d | _ -> !c lxor (!b lor ((lnot !d) land m32)) in
      let k = match r with 0 -> i | 1 -> (5 * i + 1) land 15 | 2 -> (3 * i + 5) land 15 | _ -> (7 * i) land 15 in
      let t = (!a + (f land m32) + x.(k) + md5_t.(i)) land m32 in
      let nb = (!b + rotl32 t md5_s.(4 * r + i land 3)) land m32 in
      a := !d; d := !c; c := !b; b := nb
    done;
    h.(0) <- (h.(0) + !a) land m32; h.(1) <- (h.(1) + !b) land m32;
    h.(2) <- (h.(2) + !c) land m32; h.(3) <- (h.(3) + !d) land m32 in
  md ~block:64 ~lenbytes:8 ~be:false compress (fun () -> out_le32 h 16) prod

let rmd_rho = [| 7;4;13;1;10;6;15;3;12;0;9;5;2;14;11;8 |]
let rmd_r =
  let a = Array.make 80 0 in
  let cur = ref (Array.init 16 (fun i -> i)) in
  for r = 0 to 4 do
    Array.blit !cur 0 a (16 * r) 16; cur := Array.map (fun i -> rmd_rho.(i)) !cur;
    ignore r
  done; a
(* message word order: round r uses rho^r (left), rho^r pi (right), pi(i) = 9i+5 *)
let rmd_left = Array.init 80 (fun j ->
  let r = j / 16 and i = j land 15 in
  let rec it k x = if k = 0 then x else it (k - 1) rmd_rho.(x) in it r i)
let rmd_right = Array.init 80 (fun j ->
  let r = j / 16 and i = j land 15 in
  let rec it k x = if k = 0 then x else it (k - 1) rmd_rho.(x) in it r ((9 * i + 5) land 15))
let rmd_sl = [| 11;14;15;12;5;8;7;9;11;13;14;15;6;7;9;8; 7;6;8;13;11;9;7;15;7;12;15;9;11;7;13;12;
  11;13;6;7;14;9;13;15;14;8;13;6;5;12;7;5; 11;12;14;15;14;15;9;8;9;14;5;6;8;6;5;12; 9;15;5;11;6;8;13;12;5;12;13;14;11;8;5;6 |]
let rmd_sr = [| 8;9;9;11;13;15;15;5;7;7;8;11;14;14;12;6; 9;13;15;7;12;8;9;11;7;7;12;7;6;15;13;11;
  9;7;15;11;8;6;6;14;12;13;5;14;13;13;7;5; 15;5;8;11;14;14;6;14;6;9;12;9;12;5;15;8; 8;5;12;9;12;5;14;6;8;13;6;5;15;13;11;11 |]
let ripemd160_p prod =
  let h = [| 0x67452301; 0xEFCDAB89; 0x98BADCFE; 0x10325476; 0xC3D2E1F0 |] in
  let x = Array.make 16 0 in
  let root2 n = Z.to_int (Z.root (Z.mul (Z.of_int n) (Z.shift_left Z.one 60)) 2) and
    root3 n = Z.to_int (Z.root (Z.mul (Z.of_int n) (Z.shift_left Z.one 90)) 3) in
  let kl = [| 0; root2 2; root2 3; root2 5; root2 7 |] and kr = [| root3 2; root3 3; root3 5; root3 7; 0 |] in
  let f j x y z = match j with 0 -> x lxor y lxor z | 1 -> (x land y) lor ((lnot x) land m32 land z)
    | 2 -> (x lor ((lnot y) land m32)) lxor z | 3 -> (x land z) lor (y land ((lnot z) land m32))
    | _ -> x lxor (y lor ((lnot z) land m32)) in
  let line ord sh k fsel =
    let a = ref h.(0) and b = ref h.(1) and c = ref h.(2) and d = ref h.(3) and e = ref h.(4) in
    for j = 0 to 79 do
      let r = j / 16 in
      let t = (rotl32 ((!a + f (fsel r) !b !c !d + x.(ord.(j)) + k.(r)) land m32) sh.(j) + !e) land m32 in
      a := !e; e := !d; d := rotl32 !c 10; c := !b; b := t
    done;
    (!a, !b, !c, !d, !e) in
  let compress s o =
    for t = 0 to 15 do x.(t) <- rd_le s (o + 4 * t) done;
    let (_a, bl, cl, dl, el) = line rmd_left rmd_sl kl (fun r -> r) in
    let al = _a in
    let (ar, br, cr, dr, er) = line rmd_right rmd_sr kr (fun r -> 4 - r) in
    let t = (h.(1) + cl + dr) land m32 in
    h.(1) <- (h.(2) + dl + er) land m32;
    h.(2) <- (h.(3) + el + ar) land m32;
    h.(3) <- (h.(4) + al + br) land m32;
    h.(4) <- (h.(0) + bl + cr) land m32;
    h.(0) <- t in
  md ~block:64 ~lenbytes:8 ~be:false compress (fun () -> out_le32 h 20) prod

(* ================= Keccak ================= *)
let keccak_rc =
  (* LFSR x^8 + x^6 + x^5 + x^4 + 1 *)
  let rc t =
    let r = ref 1 in
    for _ = 1 to t mod 255 do
      r := !r lsl 1; if !r land 0x100 <> 0 then r := !r lxor 0x171
    done; !r land 1 in
  Array.init 24 (fun ir ->
    let v = ref 0L in
    for j = 0 to 6 do
      if rc (j + 7 * ir) = 1 then v := Int64.logor !v (Int64.shift_left 1L ((1 lsl j) - 1))
    done; !v)
let keccak_off =
  let t = Array.make 25 0 in
  let x = ref 1 and y = ref 0 in
  for i = 0 to 23 do
    t.(!x + 5 * !y) <- ((i + 1) * (i + 2) / 2) mod 64;
    let nx = !y and ny = (2 * !x + 3 * !y) mod 5 in x := nx; y := ny
  done; t
let keccak_f a =
  let c = Array.make 5 0L and b = Array.make 25 0L in
  for r = 0 to 23 do
    for x = 0 to 4 do
      c.(x) <- Int64.logxor a.(x) (Int64.logxor a.(x+5) (Int64.logxor a.(x+10) (Int64.logxor a.(x+15) a.(x+20))))
    done;
    for x = 0 to 4 do
      let d = Int64.logxor c.((x + 4) mod 5) (rotl64 c.((x + 1) mod 5) 1) in
      for y = 0 to 4 do a.(x + 5*y) <- Int64.logxor a.(x + 5*y) d done
    done;
    for x = 0 to 4 do for y = 0 to 4 do
      let o = keccak_off.(x + 5*y) in
      b.(y + 5 * ((2*x + 3*y) mod 5)) <- (if o = 0 then a.(x+5*y) else rotl64 a.(x + 5*y) o)
    done done;
    for x = 0 to 4 do for y = 0 to 4 do
      a.(x + 5*y) <- Int64.logxor b.(x + 5*y) (Int64.logand (Int64.lognot b.((x+1) mod 5 + 5*y)) b.((x+2) mod 5 + 5*y))
    done done;
    a.(0) <- Int64.logxor a.(0) keccak_rc.(r)
  done
let keccak_gen dom sz (prod : (string -> unit) -> unit) =
  let rate = 200 - 2 * (sz / 8) in
  let a = Array.make 25 0L in
  let buf = Bytes.create rate and used = ref 0 in
  let absorb s o =
    for i = 0 to rate / 8 - 1 do a.(i) <- Int64.logxor a.(i) (String.get_int64_le s (o + 8 * i)) done;
    keccak_f a in
  prod (fun s ->
    String.iter (fun ch ->
      Bytes.set buf !used ch; incr used;
      if !used = rate then (absorb (Bytes.to_string buf) 0; used := 0)) s);
  Bytes.fill buf !used (rate - !used) '\000';
  Bytes.set buf !used (Char.chr dom);
  Bytes.set buf (rate - 1) (Char.chr (Char.code (Bytes.get buf (rate - 1)) lor 0x80));
  absorb (Bytes.to_string buf) 0;
  out_le64 a (sz / 8)
let sha3_p sz = keccak_gen 0x06 sz
let keccak_p sz = keccak_gen 0x01 sz

(* ================= BLAKE2 ================= *)
let blake_sigma = [|
  [|0;1;2;3;4;5;6;7;8;9;10;11;12;13;14;15|]; [|14;10;4;8;9;15;13;6;1;12;0;2;11;7;5;3|];
  [|11;8;12;0;5;2;15;13;10;14;3;6;7;1;9;4|]; [|7;9;3;1;13;12;11;14;2;6;5;10;4;0;15;8|];
  [|9;0;5;7;2;4;10;15;14;1;11;12;6;8;3;13|]; [|2;12;6;10;0;11;8;3;4;13;7;5;15;14;1;9|];
  [|12;5;1;15;14;13;4;10;0;7;6;3;9;2;8;11|]; [|13;11;7;14;12;1;3;9;5;0;15;4;8;6;2;10|];
  [|6;15;14;9;11;3;0;8;12;2;13;7;1;4;10;5|]; [|10;2;8;4;7;6;1;5;15;11;9;14;3;12;13;0|] |]
let cols = [| (0,4,8,12); (1,5,9,13); (2,6,10,14); (3,7,11,15); (0,5,10,15); (1,6,11,12); (2,7,8,13); (3,4,9,14) |]
let blake2_drive block key (prod : (string -> unit) -> unit) compress =
  (* buffers one block so that the last one is flagged *)
  let buf = Bytes.make block '\000' and used = ref 0 and t = ref 0 in
  let feed s o n =
    let o = ref o and n = ref n in
    while !n > 0 do
      if !used = block then (t := !t + block; compress (Bytes.unsafe_to_string buf) !t false; used := 0);
      let l = min !n (block - !used) in
      Bytes.blit_string s !o buf !used l;
      used := !used + l; o := !o + l; n := !n - l
    done in
  if key <> "" then feed (key ^ String.make (block - String.length key) '\000') 0 block;
  prod (fun s -> feed s 0 (String.length s));
  t := !t + !used;
  Bytes.fill buf !used (block - !used) '\000';
  compress (Bytes.unsafe_to_string buf) !t true
let blake2b_p n key prod =
  let open Int64 in
  let h = Array.copy sha512_iv in
  h.(0) <- logxor h.(0) (of_int Stdlib.(0x01010000 lxor (String.length key lsl 8) lxor n));
  let compress s t last =
    let m = Array.init 16 (fun i -> String.get_int64_le s Stdlib.(8 * i)) in
    let v = Array.append h sha512_iv in
    v.(12) <- logxor v.(12) (of_int t);
    if last then v.(14) <- lognot v.(14);
    for r = 0 to 11 do
      let sg = blake_sigma.(r mod 10) in
      Array.iteri (fun i (a, b, c, d) ->
        v.(a) <- add v.(a) (add v.(b) m.(sg.(Stdlib.(2 * i))));
        v.(d) <- rotr64 (logxor v.(d) v.(a)) 32;
        v.(c) <- add v.(c) v.(d); v.(b) <- rotr64 (logxor v.(b) v.(c)) 24;
        v.(a) <- add v.(a) (add v.(b) m.(sg.(Stdlib.(2 * i + 1))));
        v.(d) <- rotr64 (logxor v.(d) v.(a)) 16;
        v.(c) <- add v.(c) v.(d); v.(b) <- rotr64 (logxor v.(b) v.(c)) 63) cols
    done;
    for i = 0 to 7 do h.(i) <- logxor h.(i) (logxor v.(i) v.(i + 8)) done in
  blake2_drive 128 key prod compress;
  out_le64 h n
let blake2s_p n key prod =
  let h = Array.copy sha256_iv in
  h.(0) <- h.(0) lxor (0x01010000 lxor (String.length key lsl 8) lxor n);
  let m = Array.make 16 0 in
  let v = Array.make 16 0 in
  let compress s t last =
    for i = 0 to 15 do m.(i) <- rd_le s (4 * i) done;
    Array.blit h 0 v 0 8; Array.blit sha256_iv 0 v 8 8;
    v.(12) <- v.(12) lxor (t land m32); v.(13) <- v.(13) lxor ((t lsr 32) land m32);
    if last then v.(14) <- v.(14) lxor m32;
    for r = 0 to 9 do
      let sg = blake_sigma.(r) in
      for i = 0 to 7 do
        let (a, b, c, d) = cols.(i) in
        v.(a) <- (v.(a) + v.(b) + m.(sg.(2*i))) land m32; v.(d) <- rotr32 (v.(d) lxor v.(a)) 16;
        v.(c) <- (v.(c) + v.(d)) land m32; v.(b) <- rotr32 (v.(b) lxor v.(c)) 12;
        v.(a) <- (v.(a) + v.(b) + m.(sg.(2*i+1))) land m32; v.(d) <- rotr32 (v.(d) lxor v.(a)) 8;
        v.(c) <- (v.(c) + v.(d)) land m32; v.(b) <- rotr32 (v.(b) lxor v.(c)) 7
      done
    done;
    for i = 0 to 7 do h.(i) <- h.(i) lxor v.(i) lxor v.(i + 8) done in
  blake2_drive 64 key prod compress;
  out_le32 h n

(* ================= BLAKE3 ================= *)
module Blake3 = struct
  let perm = [| 2;6;3;10;7;0;4;13;1;11;12;5;9;14;15;8 |]
  let chunk_start = 1 and chunk_end = 2 and parent = 4 and root = 8 and keyed = 16
  let compress cv m ctr blen flags =
    let v = Array.make 16 0 in
    Array.blit cv 0 v 0 8; Array.blit sha256_iv 0 v 8 4;
    v.(12) <- ctr land m32; v.(13) <- (ctr lsr 32) land m32; v.(14) <- blen; v.(15) <- flags;
    let m = ref (Array.copy m) in
    for r = 0 to 6 do
      for i = 0 to 7 do
        let (a, b, c, d) = cols.(i) in
        v.(a) <- (v.(a) + v.(b) + !m.(2*i)) land m32; v.(d) <- rotr32 (v.(d) lxor v.(a)) 16;
        v.(c) <- (v.(c) + v.(d)) land m32; v.(b) <- rotr32 (v.(b) lxor v.(c)) 12;
        v.(a) <- (v.(a) + v.(b) + !m.(2*i+1)) land m32; v.(d) <- rotr32 (v.(d) lxor v.(a)) 8;
        v.(c) <- (v.(c) + v.(d)) land m32; v.(b) <- rotr32 (v.(b) lxor v.(c)) 7
      done;
      if r < 6 then m := Array.map (fun i -> !m.(i)) perm
    done;
    Array.init 16 (fun i -> if i < 8 then v.(i) lxor v.(i + 8) else v.(i) lxor cv.(i - 8))
  (* a pending output node: (cv, block words, counter, block length, flags) *)
  let words s o n =
    let b = String.sub s o n ^ String.make (64 - n) '\000' in
    Array.init 16 (fun i -> le32 b (4 * i))
  let cv_of (cv, m, ctr, bl, fl) = Array.sub (compress cv m ctr bl fl) 0 8
  let chunk key fl s o n ctr =
    let cv = ref key in
    let nb = max 1 ((n + 63) / 64) in
    let res = ref None in
    for i = 0 to nb - 1 do
      let l = if i = nb - 1 then n - 64 * i else 64 in
      let f = fl lor (if i = 0 then chunk_start else 0) lor (if i = nb - 1 then chunk_end else 0) in
      let node = (!cv, words s (o + 64 * i) l, ctr, l, f) in
      if i = nb - 1 then res := Some node else cv := cv_of node
    done;
    Option.get !res
  let rec tree key fl s o n ctr =
    if n <= 1024 then chunk key fl s o n ctr
    else begin
      let chunks = (n - 1) / 1024 in
      let rec pow p = if 2 * p > chunks then p else pow (2 * p) in
      let left = 1024 * pow 1 in
      let l = cv_of (tree key fl s o left ctr) in
      let r = cv_of (tree key fl s (o + left) (n - left) (ctr + left / 1024)) in
      (key, Array.append l r, 0, 64, fl lor parent)
    end
  (* the output as a function from block numbers *)
  let xof ?key s =
    let kw, fl = match key with
      | None -> sha256_iv, 0
      | Some k -> Array.init 8 (fun i -> le32 k (4 * i)), keyed in
    let (cv, m, _, bl, f) = tree kw fl s 0 (String.length s) 0 in
    fun i -> out_le32 (compress cv m i bl (f lor root)) 64
  let hash ?key s outlen =
    let kw, fl = match key with
      | None -> sha256_iv, 0
      | Some k -> Array.init 8 (fun i -> le32 k (4 * i)), keyed in
    let (cv, m, _, bl, f) = tree kw fl s 0 (String.length s) 0 in
    let b = Buffer.create outlen in
    let i = ref 0 in
    while Buffer.length b < outlen do
      Buffer.add_string b (out_le32 (compress cv m !i bl (f lor root)) 64); incr i
    done;
    Buffer.sub b 0 outlen
end

(* ================= SipHash-2-4 ================= *)
let siphash outlen key msg =
  let open Int64 in
  let k0 = String.get_int64_le key 0 and k1 = String.get_int64_le key 8 in
  let v0 = ref (logxor k0 0x736f6d6570736575L) and v1 = ref (logxor k1 0x646f72616e646f6dL)
  and v2 = ref (logxor k0 0x6c7967656e657261L) and v3 = ref (logxor k1 0x7465646279746573L) in
  if outlen = 16 then v1 := logxor !v1 0xeeL;
  let round () =
    v0 := add !v0 !v1; v1 := rotl64 !v1 13; v1 := logxor !v1 !v0; v0 := rotl64 !v0 32;
    v2 := add !v2 !v3; v3 := rotl64 !v3 16; v3 := logxor !v3 !v2;
    v0 := add !v0 !v3; v3 := rotl64 !v3 21; v3 := logxor !v3 !v0;
    v2 := add !v2 !v1; v1 := rotl64 !v1 17; v1 := logxor !v1 !v2; v2 := rotl64 !v2 32 in
  let n = String.length msg in
  let padded = Stdlib.(String.sub msg (n land (lnot 7)) (n land 7)
    ^ String.make (7 - n land 7) '\000' ^ String.make 1 (Char.chr (n land 255))) in
  let word m = v3 := logxor !v3 m; round (); round (); v0 := logxor !v0 m in
  for i = 0 to Stdlib.(n / 8 - 1) do word (String.get_int64_le msg Stdlib.(8 * i)) done;
  word (String.get_int64_le padded 0);
  v2 := logxor !v2 (if outlen = 16 then 0xeeL else 0xffL);
  let fin () = for _ = 1 to 4 do round () done; logxor (logxor !v0 !v1) (logxor !v2 !v3) in
  let a = fin () in
  if outlen = 8 then out_le64 [| a |] 8
  else begin
    v1 := logxor !v1 0xddL;
    let b = fin () in out_le64 [| a; b |] 16
  end

(* ================= HMAC, CMAC, CBC-MAC ================= *)
let hmac h block key msg =
  let key = if String.length key > block then h key else key in
  let key = key ^ String.make (block - String.length key) '\000' in
  let x c = String.map (fun k -> Char.chr (Char.code k lxor c)) key in
  h (x 0x5c ^ h (x 0x36 ^ msg))

let cbc_mac enc bs iv msg =
  assert (String.length msg mod bs = 0);
  let v = ref iv in
  for i = 0 to String.length msg / bs - 1 do
    v := enc (xor_str !v (String.sub msg (bs * i) bs))
  done; !v

let cmac enc iv msg =
  let dbl s =
    let z = Z.shift_left (z_of_be s) 1 in
    let z = if Z.testbit z 128 then Z.logxor (Z.extract z 0 128) (Z.of_int 0x87) else z in
    z_to_be 16 z in
  let k1 = dbl (enc (String.make 16 '\000')) in
  let k2 = dbl k1 in
  let n = String.length msg in
  let full = if n = 0 then 0 else (n - 1) / 16 in
  let last = String.sub msg (16 * full) (n - 16 * full) in
  let last = if String.length last = 16 then xor_str last k1
    else xor_str (last ^ "\128" ^ String.make (15 - String.length last) '\000') k2 in
  let v = cbc_mac enc 16 iv (String.sub msg 0 (16 * full)) in
  enc (xor_str v last)

(* ================= paddings ================= *)
let pad_length bs s = let n = bs - String.length s mod bs in s ^ String.make n (Char.chr n)
let pad_8000 bs s = let n = bs - String.length s mod bs in s ^ "\128" ^ String.make (n - 1) '\000'

(* ================= modes ================= *)
type mode = ECB | CBC | CFB of int | OFB of int | CTRN of int
let unit_of bs = function CFB n | OFB n -> n | _ -> bs
(* [enc]/[dec] on whole blocks of size bs; data is a whole number of units *)
let mode_crypt mode ~encrypting ~enc ~dec ~bs ~iv data =
  let u = unit_of bs mode in
  let n = String.length data / u in
  let out = Buffer.create (String.length data) in
  let reg = ref iv in
  let base = z_of_be iv in
  for i = 0 to n - 1 do
    let x = String.sub data (u * i) u in
    let y = match mode with
      | ECB -> if encrypting then enc x else dec x
      | CBC ->
        if encrypting then (let y = enc (xor_str x !reg) in reg := y; y)
        else (let y = xor_str (dec x) !reg in reg := x; y)
      | CFB k ->
        let ks = String.sub (enc !reg) 0 k in
        let y = xor_str x ks in
        let c = if encrypting then y else x in
        reg := String.sub !reg k (bs - k) ^ c; y
      | OFB k ->
        reg := enc !reg;
        xor_str x (String.sub !reg 0 k)
      | CTRN k ->
        let low = Z.extract base 0 (8 * k) in
        let high = Z.sub base low in
        let c = Z.add high (Z.extract (Z.add low (Z.of_int i)) 0 (8 * k)) in
        xor_str x (enc (z_to_be bs c)) in
    Buffer.add_string out y
  done;
  Buffer.contents out

(* ================= encodings ================= *)
let b64_alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
let base64 ~pad s =
  let n = String.length s in
  let b = Buffer.create (n * 4 / 3 + 4) in
  let bit i = if i / 8 < n then (Char.code s.[i / 8] lsr (7 - i land 7)) land 1 else 0 in
  let digits = (8 * n + 5) / 6 in
  for d = 0 to digits - 1 do
    let v = ref 0 in
    for j = 0 to 5 do v := 2 * !v + bit (6 * d + j) done;
    Buffer.add_char b b64_alpha.[!v]
  done;
  if pad then while Buffer.length b land 3 <> 0 do Buffer.add_char b '=' done;
  Buffer.contents b
let hex = Pbt.hex

let adler32 s =
  let a = ref 1 and b = ref 0 in
  String.iter (fun c -> a := (!a + Char.code c) mod 65521; b := (!b + !a) mod 65521) s;
  (!b lsl 16) lor !a

let sha1 = once sha1_p
let sha224 = once sha224_p
let sha256 = once sha256_p
let sha384 = once sha384_p
let sha512 = once sha512_p
let md5 = once md5_p
let ripemd160 = once ripemd160_p
let sha3 sz = once (sha3_p sz)
let keccak sz = once (keccak_p sz)
let blake2b n key = once (blake2b_p n key)
let blake2s n key = once (blake2s_p n key)
