PROP="C21"
NEEDS="a minor collection exactly while the digest string of a young SHA-384 object is allocated"
BREAKS="the context pointer is taken before the allocation and dangles afterwards"
EDITS=[("src/stubs-sha512.c","""  res = caml_alloc_string(48);
  SHA512_finish(Context_val(ctx), 384, &Byte_u(res, 0));""","""  struct SHA512Context * c = Context_val(ctx);
  res = caml_alloc_string(48);
  SHA512_finish(c, 384, &Byte_u(res, 0));""")]
DEMO='''open Cryptokit
(* the object is allocated at the very top of the minor heap, and the collection strikes
   inside the last operation *)
let try_ mk use expected =
  for fill = 0 to 2100 do
    begin
    Gc.minor ();
    let h = mk () in
    for _ = 1 to fill do ignore (Sys.opaque_identity (ref 0)) done;
    if use h <> expected then exit 1 end
  done
let m = String.make 127 'x'
let mk () = let h = Hash.sha384 () in h#add_string m; h
let use h = h#result
let () =
  Gc.set { (Gc.get ()) with Gc.minor_heap_size = 4096 };
  try_ mk use (use (mk ()))
'''
