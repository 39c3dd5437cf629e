PROP="C10"
NEEDS="an authenticated message whose tag differs only in its last four bytes"
BREAKS="forged tags that agree on the first twelve bytes are accepted"
EDITS=[("src/cryptokit.ml","""    if string_equal tag (String.sub s (ls - lt) lt)
    then Some""","""    if string_equal (String.sub tag 0 (min lt 12)) (String.sub s (ls - lt) (min lt 12))
    then Some""")]
DEMO='''open Cryptokit
let () =
  let e = auth_transform_string (AEAD.aes_gcm ~iv:"0123456789ab" (String.make 16 'k') AEAD.Encrypt) "hello" in
  let n = String.length e in
  let f = String.mapi (fun i c -> if i = n - 1 then Char.chr (Char.code c lxor 1) else c) e in
  exit (if auth_check_transform_string (AEAD.aes_gcm ~iv:"0123456789ab" (String.make 16 'k') AEAD.Decrypt) f = None then 0 else 1)
'''
