PROP="C24"
NEEDS="wiping many SHA-3 hash objects (each helper that consumes a hash does it)"
BREAKS="the pointer is cleared before the block is freed: every wiped SHA-3 hash leaks its context"
EDITS=[("src/stubs-sha3.c","""    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));
    caml_stat_free(Context_val(ctx));
    Context_val(ctx) = NULL;
""","""    memset(Context_val(ctx), 0, sizeof(struct SHA3Context));
    Context_val(ctx) = NULL;
    caml_sha3_finalize(ctx);
""")]
DEMO=r'''
let rss () =
  let ic = open_in "/proc/self/statm" in
  let r = Scanf.sscanf (input_line ic) "%d %d" (fun _ r -> r) in close_in ic; r
let once n = for i = 1 to n do ignore (Cryptokit.hash_string (Cryptokit.Hash.sha3 256) "abc") done; Gc.full_major ()
let () =
  once 20_000;
  let a = rss () in
  once 200_000;
  let b = rss () in
  Printf.printf "%d pages -> %d pages\n" a b;
  exit (if b - a > 5000 then 1 else 0)
'''
