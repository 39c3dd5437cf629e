PROP="C05"
NEEDS="an ARCfour key of exactly 256 bytes, the longest legal one"
BREAKS="the key length is kept in a byte and becomes 0, so only the first byte of the key is used"
EDITS=[("src/arcfour.c","""  unsigned char t, index1, index2;

  s = &key->state[0];""","""  unsigned char t, index1, index2;
  unsigned char last = (unsigned char) key_data_len;

  s = &key->state[0];"""),("src/arcfour.c","    if (index1 >= key_data_len) index1 = 0;","    if (index1 >= last) index1 = 0;")]
DEMO='''open Cryptokit
let enc k = transform_string (Cipher.arcfour k Cipher.Encrypt) (String.make 64 '\\000')
let () =
  let k = String.init 128 (fun i -> Char.chr (i * 7 land 255)) in
  exit (if enc k = enc (k ^ k) then 0 else 1)
'''
