PROP="C02"
NEEDS="CFB with a chunk size smaller than the block, decrypting in place at the primitive level (source and destination the same bytes)"
BREAKS="decryption feeds back the plaintext instead of the ciphertext when source and destination coincide"
EDITS=[("src/cryptokit.ml","""      Bytes.blit iv chunksize iv 0 (blocksize - chunksize);
      Bytes.blit src src_off iv (blocksize - chunksize) chunksize;
      Bytes.blit src src_off dst dst_off chunksize;
      xor_bytes out 0 dst dst_off chunksize
""","""      Bytes.blit iv chunksize iv 0 (blocksize - chunksize);
      Bytes.blit src src_off dst dst_off chunksize;
      xor_bytes out 0 dst dst_off chunksize;
      Bytes.blit src src_off iv (blocksize - chunksize) chunksize
""")]
DEMO='''open Cryptokit
let () =
  let key = String.make 16 'k' and pt = Bytes.of_string "0123456789abcdef" in
  let mk dir = match dir with
    | `E -> new Block.cfb_encrypt ~iv:(String.make 16 'i') 4 (new Block.aes_encrypt key)
    | `D -> new Block.cfb_decrypt ~iv:(String.make 16 'i') 4 (new Block.aes_encrypt key) in
  let b = Bytes.copy pt in
  let e = mk `E in
  for i = 0 to 3 do e#transform b (4*i) b (4*i) done;
  let d = mk `D in
  for i = 0 to 3 do d#transform b (4*i) b (4*i) done;
  exit (if b = pt then 0 else 1)
'''
