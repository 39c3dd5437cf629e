PROP="C01"
NEEDS="two AES-192 or AES-256 encryption keys in a row that agree on their first 16 bytes"
BREAKS="the last key schedule is reused when the first 16 bytes and the length of the key agree"
EDITS=[("src/stubs-aes.c","""  if (aesni_available == -1) aesni_check_available();
  if (aesni_available == 1)
    nr = aesniKeySetupEnc((u8 *) String_val(ckey),
                          (const u8 *) String_val(key),
                          8 * caml_string_length(key));
  else
    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key),
                             8 * caml_string_length(key));
""","""  static u8 last_key[16], last_sched[Cooked_key_NR_offset];
  static int last_len = 0, last_nr = 0;

  if (aesni_available == -1) aesni_check_available();
  if (caml_string_length(key) == last_len && memcmp(String_val(key), last_key, 16) == 0) {
    memcpy((u8 *) String_val(ckey), last_sched, sizeof(last_sched));
    Byte(ckey, Cooked_key_NR_offset) = last_nr;
    CAMLreturn(ckey);
  }
  if (aesni_available == 1)
    nr = aesniKeySetupEnc((u8 *) String_val(ckey),
                          (const u8 *) String_val(key),
                          8 * caml_string_length(key));
  else
    nr = rijndaelKeySetupEnc((u32 *) String_val(ckey),
                             (const u8 *) String_val(key),
                             8 * caml_string_length(key));
  memcpy(last_key, String_val(key), 16);
  memcpy(last_sched, String_val(ckey), sizeof(last_sched));
  last_len = caml_string_length(key); last_nr = nr;
"""),("src/stubs-aes.c","""#include <caml/memory.h>""","""#include <caml/memory.h>
#include <string.h>""")]
DEMO='''open Cryptokit
let enc k = transform_string (Cipher.aes ~mode:Cipher.ECB k Cipher.Encrypt) "0123456789abcdef"
let () =
  let a = enc (String.make 32 'k') in
  if a = enc (String.make 31 'k' ^ "l") then exit 1
'''
