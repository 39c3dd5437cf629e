PROP="C01"
NEEDS="a Blowfish key of more than 52 bytes, or one whose length is not a multiple of 4 (the key wraps in the middle of a word)"
BREAKS="the key is read word by word and restarts at its first byte once fewer than four bytes remain, so the trailing bytes are ignored"
EDITS=[("src/blowfish.c","""      data = (data << 8) | key[j];
      j = j + 1;
      if (j >= keyLen)
        j = 0;
    }""","""      data = (data << 8) | key[j + k];
    }
    j = j + 4;
    if (j + 4 > keyLen)
      j = 0;""")]
DEMO='''open Cryptokit
let enc k = let c = new Block.blowfish_encrypt k in let d = Bytes.make 8 '\\000' in c#transform (Bytes.make 8 'x') 0 d 0; d
let () =
  let k = "seven77" in
  (* a key repeated several times denotes the same cipher *)
  exit (if enc k = enc (k ^ k ^ k ^ k) then 0 else 1)
'''
