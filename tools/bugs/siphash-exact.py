PROP="C08"
NEEDS="a SipHash message given in pieces, the last of which completes an 8-byte word started by an earlier piece"
BREAKS="the completed word is never mixed in"
EDITS=[("src/siphash.c","""  if (len < free) {""","""  if (len < free || (used > 4 && len == free)) {""")]
DEMO='''open Cryptokit
let () =
  let key = "0123456789abcdef" in
  let h = MAC.siphash key in
  h#add_string "abcdef"; h#add_string "gh";
  exit (if h#result = hash_string (MAC.siphash key) "abcdefgh" then 0 else 1)
'''
