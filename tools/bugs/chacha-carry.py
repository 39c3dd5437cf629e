PROP="C05"
NEEDS="a ChaCha20 stream with an 8-byte nonce that runs across block number 2^32-1 (initial counter just below it)"
BREAKS="the carry into the upper half of the 64-bit block counter is lost, so the key stream repeats itself"
EDITS=[("src/chacha20.c","""  if (++ ctx->input[12] == 0) {
    if (ctx->iv_length == 8) ++ ctx->input[13];
  }""","""  ctx->input[12] = PLUS(ctx->input[12], 1);
  if (ctx->iv_length == 8 && ctx->input[12] == 0 && ctx->input[13] != 0)
    ctx->input[13] = PLUS(ctx->input[13], 1);""")]
DEMO='''open Cryptokit
let ks ctr n = transform_string (Cipher.chacha20 ~iv:"abcdefgh" ~ctr (String.make 32 'k') Cipher.Encrypt) (String.make n '\\000')
let () =
  let a = ks 0xFFFFFFFEL 256 and b = ks 0x100000000L 128 in
  exit (if String.sub a 128 128 = b then 0 else 1)
'''
