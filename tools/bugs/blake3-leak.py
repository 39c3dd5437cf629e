PROP="C24"
NEEDS="BLAKE3 hashes that are dropped without having been wiped"
BREAKS="no finalizer is registered for the context: an unwiped BLAKE3 hash leaks its C memory when it is collected"
EDITS=[("src/stubs-blake3.c","""  caml_blake3_finalize,
  custom_compare_default""","""  custom_finalize_default,
  custom_compare_default""")]
DEMO=r'''
let rss () =
  let ic = open_in "/proc/self/statm" in
  let r = Scanf.sscanf (input_line ic) "%d %d" (fun _ r -> r) in close_in ic; r
let once n = for i = 1 to n do let h = Cryptokit.Hash.blake3 256 in h#add_string "abc"; ignore h#result done; Gc.full_major ()
let () =
  once 10_000;
  let a = rss () in
  once 50_000;
  let b = rss () in
  Printf.printf "%d pages -> %d pages\n" a b;
  exit (if b - a > 5000 then 1 else 0)
'''
