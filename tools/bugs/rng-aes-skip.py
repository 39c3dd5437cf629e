PROP="C14"
NEEDS="requests to the AES-counter generator that end exactly on a 16-byte boundary followed by another request after a partial one"
BREAKS="the remaining bytes of a key stream block are skipped when a request larger than what is left arrives"
EDITS=[("src/cryptokit.ml","""        if opos >= 16 then begin
          (* Encrypt the counter *)""","""        if opos >= 16 || (opos > 8 && len > 16) then begin
          (* Encrypt the counter *)""")]
DEMO='''open Cryptokit
let () =
  let g () = Random.pseudo_rng_aes_ctr "0123456789abcdefghij" in
  let a = Random.string (g ()) 64 in
  let r = g () in
  let b1 = Random.string r 10 in
  let b2 = Random.string r 54 in
  exit (if a = b1 ^ b2 then 0 else 1)
'''
