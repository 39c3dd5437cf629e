PROP="C14"
NEEDS="a hardware generator request whose length is not a multiple of 8, into the middle of a larger buffer"
BREAKS="up to seven bytes after the designated range are overwritten"
EDITS=[("src/stubs-rng.c","""  uint64_t r, rr;

  while (nbytes >= 8) {""","""  uint64_t r;

  while (nbytes > 0) {"""),("src/stubs-rng.c","""  if (nbytes > 0) {
    if (! rdrand64(&rr)) return Val_false;
    memcpy(dst, &rr, nbytes);
  }
""","")]
DEMO='''open Cryptokit
let () =
  match Random.hardware_rng () with
  | exception _ -> exit 0
  | r ->
    for i = 1 to 50 do
      let b = Bytes.make 64 'x' in
      r#random_bytes b 8 19;
      if Bytes.sub b 27 37 <> Bytes.make 37 'x' || Bytes.sub b 0 8 <> Bytes.make 8 'x' then exit 1
    done
'''
