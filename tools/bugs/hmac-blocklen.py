PROP="C08"
NEEDS="an HMAC key of exactly the block size (64 bytes for SHA-1/256/MD5/RIPEMD, 128 for SHA-384/512)"
BREAKS="a key of exactly one block is hashed first although only longer keys must be"
EDITS=[("src/cryptokit.ml","""        if String.length key > H.blocksize
        then""","""        if String.length key >= H.blocksize
        then""")]
DEMO='''open Cryptokit
let () =
  let key = String.init 64 (fun i -> Char.chr (i + 1)) in
  let x c = String.map (fun k -> Char.chr (Char.code k lxor c)) key in
  let sha s = hash_string (Hash.sha256 ()) s in
  let want = sha (x 0x5c ^ sha (x 0x36 ^ "msg")) in
  exit (if hash_string (MAC.hmac_sha256 key) "msg" = want then 0 else 1)
'''
