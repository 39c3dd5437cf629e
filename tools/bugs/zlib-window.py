PROP="C13"
NEEDS="a raw deflate stream with back references farther than 16 KiB, given to the decompressor in several calls"
BREAKS="the decompressor of headerless streams keeps a window of 16 KiB only, so distant references across calls are rejected"
EDITS=[("src/stubs-zlib.c","""  if (inflateInit2(ZStream_val(vzs),
                   Bool_val(expect_header) ? MAX_WBITS : -MAX_WBITS) != Z_OK)""","""  if (inflateInit2(ZStream_val(vzs),
                   Bool_val(expect_header) ? MAX_WBITS : -(MAX_WBITS - 1)) != Z_OK)""")]
DEMO='''open Cryptokit
let () =
  let r = Random.pseudo_rng (String.make 32 'k') in
  let a = Random.string r 20000 in
  let m = a ^ a in
  let z = transform_string (Zlib.compress ~write_zlib_header:false ()) m in
  let u = Zlib.uncompress ~expect_zlib_header:false () in
  let ok = try
    let n = String.length z in
    let p = ref 0 in
    let b = Buffer.create 40000 in
    while !p < n do
      let k = min 1000 (n - !p) in
      u#put_substring (Bytes.of_string z) !p k; p := !p + k;
      Buffer.add_string b u#get_string
    done;
    u#finish; Buffer.add_string b u#get_string; Buffer.contents b = m
  with Error _ -> false in
  exit (if ok then 0 else 1)
'''
