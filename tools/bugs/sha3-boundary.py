PROP="C07"
NEEDS="a SHA-3/Keccak message fed in two or more pieces where a piece exactly completes the block started by the previous one and a later piece follows"
BREAKS="the buffer fill count is not reset when a piece exactly completes a block, so later data is absorbed at the wrong place"
EDITS=[("src/keccak.c","""  /* Save remaining data */
  if (len > 0) memcpy(ctx->buffer, data, len);
  ctx->numbytes = len;
}""","""  /* Save remaining data */
  if (len > 0) {
    memcpy(ctx->buffer, data, len);
    ctx->numbytes = len;
  } else if (ctx->numbytes <= ctx->rsiz - 8) {
    ctx->numbytes = 0;
  }
}""")]
DEMO='''open Cryptokit
let () =
  let m = String.init 300 (fun i -> Char.chr (i land 255)) in
  let h = Hash.sha3 256 in
  h#add_string (String.sub m 0 132); h#add_string (String.sub m 132 4); h#add_string (String.sub m 136 164);
  exit (if h#result = hash_string (Hash.sha3 256) m then 0 else 1)
'''
