PROP="C20"
NEEDS="wiping a BLAKE3 hash or keyed MAC, then looking at the memory it gave back"
BREAKS="the C context is freed without being erased: key and chaining values stay in memory"
EDITS=[("src/stubs-blake3.c","""  if (Context_val(ctx) != NULL)
    memset(Context_val(ctx), 0, sizeof(blake3_hasher));
  caml_blake3_finalize(ctx);""","""  if (Context_val(ctx) != NULL)
    blake3_hasher_reset(Context_val(ctx));
  caml_blake3_finalize(ctx);""")]
DEMO='''(* the key must not be found in the memory that was handed back *)
let () =
  let ic = open_in_bin "/proc/self/maps" and mem = open_in_bin "/proc/self/mem" in
  let lo, hi = ref 0, ref 0 in
  let b = Bytes.create 20_000_000 in
  let key = Bytes.init 32 (fun i -> Char.chr ((i * 37 + 101) land 255)) in
  let h = Cryptokit.MAC.blake3 256 (Bytes.to_string key) in
  h#add_string "abc"; h#wipe;
  (try while true do
     let l = input_line ic in
     let n = String.length l in
     if n > 6 && String.sub l (n - 6) 6 = "[heap]" then
       Scanf.sscanf l "%x-%x" (fun a b -> lo := a; hi := b)
   done with End_of_file -> ());
  seek_in mem !lo;
  let n = min (!hi - !lo) 20_000_000 in
  really_input mem b 0 n;
  let pat = Bytes.sub_string key 16 16 in
  let found = ref false in
  for i = 0 to n - 16 do
    if Bytes.get b i = pat.[0] && Bytes.sub_string b i 16 = pat then found := true
  done;
  exit (if !found then 1 else 0)
'''
