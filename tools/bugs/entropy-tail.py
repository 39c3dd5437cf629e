PROP="C14"
NEEDS="a request of exactly 256 bytes (or a multiple of it) to the system generator"
BREAKS="the last 256 bytes of the buffer are not filled"
EDITS=[("src/stubs-rng.c","""  while (l > 0) {
    int n = l < 256 ? l : 256;
    if (getentropy(p, n) == -1) return Val_false;
    p += n; l -= n;
  }
  return Val_true;""","""  while (l > 256) {
    if (getentropy(p, 256) == -1) return Val_false;
    p += 256; l -= 256;
  }
  if (getentropy(p, l & 255) == -1) return Val_false;
  return Val_true;""")]
DEMO='''open Cryptokit
let () =
  let b = Bytes.make 512 '\\000' in
  Random.secure_rng#random_bytes b 0 512;
  let z = Bytes.make 256 '\\000' in
  exit (if Bytes.sub b 256 256 <> z && Bytes.sub b 0 256 <> z then 0 else 1)
'''
