PROP="C06"
NEEDS="a SHA-1 message of exactly 55 bytes modulo 64"
BREAKS="a superfluous padding block is appended"
EDITS=[("src/sha1.c","""  if (i > 56) {
    memset(ctx->buffer + i, 0, 64 - i);
    SHA1_transform(ctx);""","""  if (i >= 56) {
    memset(ctx->buffer + i, 0, 64 - i);
    SHA1_transform(ctx);""")]
DEMO='''open Cryptokit
let hex s = transform_string (Hexa.encode ()) s
let () = exit (if hex (hash_string (Hash.sha1 ()) (String.make 55 'a')) = "c1c8bbdc22796e28c0e15163d20899b65621d65a" then 0 else 1)
'''
