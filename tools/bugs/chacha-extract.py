PROP="C14"
NEEDS="two successive requests to the ChaCha20 generator, the first of which starts inside a 64-byte block and ends exactly at a block boundary"
BREAKS="the block that was just used up is handed out again"
EDITS=[("src/chacha20.c","""  int n = ctx->next;
  for (/*nothing*/; len > 0; len--) {
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    *out++ = ctx->output[n++];
  }
  ctx->next = n;""","""  int n = ctx->next, partial = n & 63;
  while (len > 0) {
    size_t k;
    if (n >= 64) { chacha20_block(ctx); n = 0; }
    k = 64 - n;
    if (k > len) k = len;
    memcpy(out, ctx->output + n, k);
    out += k; len -= k; n += k;
  }
  ctx->next = partial ? n & 63 : n;""")]
DEMO='''open Cryptokit
let () =
  let r = Random.pseudo_rng (String.make 32 's') in
  let a0 = Random.string r 10 in let a = a0 ^ Random.string r 54 in let b = Random.string r 64 in
  let r2 = Random.pseudo_rng (String.make 32 's') in
  exit (if a ^ b = Random.string r2 128 then 0 else 1)
'''
