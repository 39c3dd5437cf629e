PROP="C09"
NEEDS="an AES-GCM initial vector longer than 16 bytes whose length is not a multiple of 16"
BREAKS="the last partial block of a long IV is dropped from the derivation of the initial counter"
EDITS=[("src/cryptokit.ml","""    let mac = ghash_string h iv in
    let buf = Bytes.make 16 '\\000' in""","""    let l = String.length iv in
    let mac = ghash_string h (if l <= 16 || l >= 60 then iv else String.sub iv 0 (l land (lnot 15))) in
    let buf = Bytes.make 16 '\\000' in""")]
DEMO='''open Cryptokit
let () =
  let f iv = auth_transform_string (AEAD.aes_gcm ~iv (String.make 16 'k') AEAD.Encrypt) "hello" in
  let iv = String.init 27 (fun i -> Char.chr (i * 7)) in
  let iv' = String.mapi (fun i c -> if i = 20 then 'x' else c) iv in
  exit (if f iv <> f iv' then 0 else 1)
'''
