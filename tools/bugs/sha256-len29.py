PROP="C23"
NEEDS="half a gigabyte or more given to SHA-224/256 in one call"
BREAKS="the upper half of the bit length is wrong"
EDITS=[("src/sha256.c","  ctx->length[0] += (u32) (len >> 29);","  ctx->length[0] += (u32) ((u32) len >> 30);")]
DEMO='''open Cryptokit
let () =
  let n = 1 lsl 29 in
  let b = Bytes.make n 'z' in
  let h = Hash.sha256 () in h#add_substring b 0 n;
  let g = Hash.sha256 () in
  for i = 0 to 3 do g#add_substring b (i * (n / 4)) (n / 4) done;
  exit (if h#result = g#result then 0 else 1)
'''
