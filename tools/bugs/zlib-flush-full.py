PROP="C13"
NEEDS="a flush whose compressed output does not fit in the space left in the output buffer"
BREAKS="flush stops after one step, so part of what was put before it is not yet decodable"
EDITS=[("src/cryptokit.ml","""      if oend = Bytes.length obuf then self#flush
""","""      if used_out = Bytes.length obuf then self#flush
""")]
DEMO='''open Cryptokit
let () =
  let s = Random.string (Random.pseudo_rng (String.make 32 's')) 4000 in
  let ok = ref true in
  for n = 100 to 4000 do
    let z = Zlib.compress () in
    let m = String.sub s 0 n in
    z#put_string m; z#flush;
    let u = Zlib.uncompress () in
    u#put_string z#get_string; u#flush;
    if u#get_string <> m then ok := false
  done;
  exit (if !ok then 0 else 1)
'''
