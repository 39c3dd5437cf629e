PROP="C08"
NEEDS="BLAKE2b MAC with a key, created in memory that was used before"
BREAKS="only the first half of the key block is cleared; the rest keeps what was in memory"
EDITS=[("src/blake2.c","""    memset(s->buffer, 0, BLAKE2b_BLOCKSIZE);
    memcpy(s->buffer, key, keylen);""","""    memset(s->buffer, 0, BLAKE2b_BLOCKSIZE / 2);
    memcpy(s->buffer, key, keylen);""")]
DEMO='''open Cryptokit
let key = String.init 64 Char.chr
let mac () = hash_string (MAC.blake2b 512 key) "abc"
let () =
  let first = mac () in
  for v = 1 to 50 do
    for i = 0 to 4000 do ignore (Sys.opaque_identity (Bytes.make 700 (Char.chr v))) done;
    if mac () <> first then exit 1
  done
'''
