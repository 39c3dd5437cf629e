PROP="C17"
NEEDS="a shared secret whose leading byte is zero (one run in 256)"
BREAKS="the shared secret is shortened by its leading zero byte instead of having the length of the prime"
EDITS=[("src/cryptokit.ml","""  let res =
    Bn.to_bytes ~numbits:(String.length params.p * 8)
      (Bn.mod_power (Bn.of_bytes othermsg) privsec (Bn.of_bytes params.p))
  in Bn.wipe privsec; res""","""  let res =
    let r = Bn.mod_power (Bn.of_bytes othermsg) privsec (Bn.of_bytes params.p) in
    let s = Bn.to_bytes ~numbits:(String.length params.p * 8) r in
    if s.[0] = '\\000' then String.sub s 1 (String.length s - 1) else s
  in Bn.wipe privsec; res""")]
DEMO='''open Cryptokit
let () =
  let rng = Random.pseudo_rng "a fixed seed for this demonstration" in
  let p = DH.new_parameters ~rng ~privlen:30 64 in
  let bad = ref false in
  for i = 1 to 3000 do
    let a = DH.private_secret ~rng p and b = DH.private_secret ~rng p in
    let ma = DH.message p a and mb = DH.message p b in
    let s = DH.shared_secret p a mb and s' = DH.shared_secret p b ma in
    if s <> s' || String.length s <> 8 then bad := true
  done;
  exit (if !bad then 1 else 0)
'''
