PROP="C03"
NEEDS="0x8000 padding where the data ends in bytes that look like padding: stripping a block made of the marker and zeros at its very start"
BREAKS="a block consisting only of zeros, which is not a padded block, is accepted as padding"
EDITS=[("src/cryptokit.ml","""        if pos < 0 then raise (Error Bad_padding) else""","""        if pos < 0 then 0 else""")]
DEMO='''open Cryptokit
let () =
  let key = String.make 16 'k' in
  let ct = transform_string (Cipher.aes ~mode:Cipher.ECB key Cipher.Encrypt) (String.make 16 '\\000') in
  match transform_string (Cipher.aes ~mode:Cipher.ECB ~pad:Padding._8000 key Cipher.Decrypt) ct with
  | exception Error Bad_padding -> exit 0
  | _ -> exit 1
'''
