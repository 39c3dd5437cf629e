PROP="C19"
NEEDS="a stream cipher transform call whose source range ends past the end of the buffer by overflow or with an offset near max_int"
BREAKS="the range check is written as an addition that overflows, so the call reads outside the buffer"
EDITS=[("src/cryptokit.ml","""      if len < 0
      || src_ofs < 0 || src_ofs > Bytes.length src - len
      || dst_ofs < 0 || dst_ofs > Bytes.length dst - len
      then invalid_arg "arcfour#transform";""","""      if len < 0
      || src_ofs < 0 || src_ofs + len > Bytes.length src
      || dst_ofs < 0 || dst_ofs > Bytes.length dst - len
      then invalid_arg "arcfour#transform";""")]
DEMO='''open Cryptokit
let () =
  let c = new Stream.arcfour "key" in
  let b = Bytes.make 32 'x' in
  match Unix.fork () with
  | 0 -> (match c#transform b (max_int - 3) b 0 8 with exception Invalid_argument _ -> exit 0 | _ -> exit 1)
  | pid -> (match snd (Unix.waitpid [] pid) with Unix.WEXITED 0 -> exit 0 | _ -> exit 1)
'''
