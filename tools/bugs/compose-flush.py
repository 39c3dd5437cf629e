PROP="C11"
NEEDS="a composition whose first transform still holds data at finish and whose second buffers a partial block (e.g. Base64 decode composed with block encryption), fed by flush in the middle"
BREAKS="flush of a composition does not pass on the output that flushing the first transform released"
EDITS=[("src/cryptokit.ml","""    method flush = tr1#flush; self#transfer; tr2#flush""","""    method flush = self#transfer; tr1#flush; tr2#flush""")]
DEMO='''open Cryptokit
let () =
  let key = String.make 16 'k' in
  let t = compose (Cipher.aes ~mode:Cipher.ECB key Cipher.Encrypt) (Hexa.encode ()) in
  t#put_string (String.make 16 'a');
  t#flush;
  exit (if t#available_output = 32 then 0 else 1)
'''
