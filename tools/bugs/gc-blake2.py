PROP="C21"
NEEDS="a minor collection happening exactly while the digest string of a young BLAKE2b object is allocated"
BREAKS="the context pointer is taken before the allocation and dangles after the object has moved"
EDITS=[("src/stubs-blake2.c","""  int len = Int_val(hashlen);
  res = caml_alloc_string(len);
  blake2b_final(blake2b_val(ctx), len, &Byte_u(res, 0));""","""  int len = Int_val(hashlen);
  struct blake2b * s = blake2b_val(ctx);
  res = caml_alloc_string(len);
  blake2b_final(s, len, &Byte_u(res, 0));""")]
DEMO='''open Cryptokit
let expected = hash_string (Hash.blake2b 64) "abc"
let keep = ref []
let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 4096 };
  for i = 1 to 200000 do
    let h = Hash.blake2b 64 in
    h#add_string "abc";
    for _ = 1 to i land 7 do keep := [ref i] done;
    let r = h#result in
    if r <> expected then exit 1
  done
'''
