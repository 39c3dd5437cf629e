PROP="C07"
NEEDS="a BLAKE2s message fed in pieces where, after the first block, a piece exactly fills the internal buffer and nothing follows"
BREAKS="the last block is compressed early as a non-final block, followed by an empty final block"
EDITS=[("src/blake2.c","""    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len <= n) {""","""    n = BLAKE2s_BLOCKSIZE - s->numbytes;
    if (len < n || (len == n && s->len[0] == 0)) {""")]
DEMO='''open Cryptokit
let () =
  let m = String.init 192 Char.chr in
  let h = Hash.blake2s 32 in
  List.iter (fun (o, l) -> h#add_substring (Bytes.of_string m) o l) [0,100; 100,40; 140,52];
  exit (if h#result = hash_string (Hash.blake2s 32) m then 0 else 1)
'''
