PROP="C21"
NEEDS="two Blowfish objects made one after the other from the same key buffer, whose contents changed in between"
BREAKS="the key schedule is remembered by the address of the key string"
EDITS=[("src/stubs-blowfish.c","""  Blowfish_Init((BLOWFISH_CTX *) String_val(ckey),
                &Byte_u(key, 0),
                caml_string_length(key));
  CAMLreturn(ckey);""","""  static BLOWFISH_CTX last;
  static value last_key = 0;
  static mlsize_t last_len = 0;
  if (Is_young(key) || key != last_key || caml_string_length(key) != last_len) {
    Blowfish_Init(&last, &Byte_u(key, 0), caml_string_length(key));
    last_key = key; last_len = caml_string_length(key);
  }
  memcpy((void *) String_val(ckey), &last, sizeof(last));
  CAMLreturn(ckey);"""),
 ("src/stubs-blowfish.c","""#include <caml/memory.h>""","""#include <string.h>
#define CAML_INTERNALS
#include <caml/memory.h>
#include <caml/minor_gc.h>
#include <caml/address_class.h>""")]
DEMO='''open Cryptokit
let () =
  let k = Bytes.make 16 'a' in
  Gc.full_major ();
  let enc () = transform_string (Cipher.blowfish ~mode:Cipher.ECB (Bytes.unsafe_to_string k) Cipher.Encrypt) "12345678" in
  let a = enc () in
  Bytes.fill k 0 16 'b';
  let b = enc () in
  if a = b then exit 1
'''
