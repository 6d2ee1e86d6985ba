open Pbt
let register () =
  P1.register (); P2.register (); P3.register (); P24.register (); P31.register (); P33.register ();
  fresh "C01" [| "block"; "block"; "inverse" |];
  fresh "C02" [| "modes"; "carry"; "raw" |];
  fresh "C03" [| "transform"; "raw" |];
  fresh "C04" [| "cipher" |];
  fresh "C05" [| "history" |];
  fresh "C06" [| "pieces"; "split" |];
  fresh "C07" [| "digest" |];
  fresh "C08" [| "tag" |];
  fresh "C09" [| "aead"; "wrap" |];
  fresh "C10" [| "tamper" |];
  fresh "C17" [| "roundtrip"; "streams"; "mutate" |];
  fresh "C18" [| "stream" |];
  fresh "C19" [| "device"; "system"; "rdrand" |];
  fresh "C20" [| "objects"; "oneshot" |];
  fresh "C21" [| "parameters" |];
  fresh "C23" [| "programs" |];
  fresh "C26" [| "compose"; "hash" |];
  fresh "C27" [| "equal"; "xor" |];
  fresh "C29" [| "same"; "mixed"; "mixed"; "oneshot"; "raw" |]
let serve () = P24.serve ()
