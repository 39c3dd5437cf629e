PROP="C18"
NEEDS="a xor of 64 bytes or more with equally misaligned source and destination"
BREAKS="the misaligned head counts as one byte too many, so the last byte is left unchanged"
EDITS=[("src/stubs-misc.c","""  if (l >= 64 && ALIGNMENT_OF(s) == ALIGNMENT_OF(d)) {
    while (ALIGNMENT_OF(s) != 0 && l > 0) {""","""  if (l >= 64 && ALIGNMENT_OF(s) == ALIGNMENT_OF(d)) {
    if (ALIGNMENT_OF(s) > 4) l &= ~7L;
    while (ALIGNMENT_OF(s) != 0 && l > 0) {""")]
DEMO='''open Cryptokit
let () =
  let ok = ref true in
  for o = 0 to 7 do
    for l = 60 to 90 do
      let s = String.init 128 (fun i -> Char.chr (i + 1)) in
      let d = Bytes.make 128 'd' in
      xor_string s o d o l;
      for i = 0 to 127 do
        let want = if i >= o && i < o + l then Char.chr (Char.code s.[i] lxor Char.code 'd') else 'd' in
        if Bytes.get d i <> want then ok := false
      done
    done
  done;
  exit (if !ok then 0 else 1)
'''
