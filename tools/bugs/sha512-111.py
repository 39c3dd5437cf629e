PROP="C06"
NEEDS="a SHA-384/512 message whose length is 111 modulo 128: the padding byte and the length just fit in the last block"
BREAKS="an extra block of padding is hashed for that length"
EDITS=[("src/sha512.c","  if (i > 112) {","  if (i >= 112) {")]
DEMO='''open Cryptokit
let () =
  let h = transform_string (Hexa.encode ()) (hash_string (Hash.sha512 ()) (String.make 111 'a')) in
  exit (if h = "%s" then 0 else 1)
'''
import hashlib
DEMO=DEMO%hashlib.sha512(b"a"*111).hexdigest()
