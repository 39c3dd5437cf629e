PROP="C09"
NEEDS="a header and text for which the Poly1305 accumulator ends between 2^130-5 and 2^130-1 (possible for every key, practically never at random)"
BREAKS="the final reduction modulo 2^130-5 is dropped, so the tag is off by five"
EDITS=[("src/poly1305-donna-64.h","""	c = (g2 >> ((sizeof(uint64_t) * 8) - 1)) - 1;
	g0 &= c;""","""	c = (g2 >> ((sizeof(uint64_t) * 8) - 1)) - 1;
	c &= -(g2 >> 1 & 1);
	g0 &= c;""")]
DEMO='''open Cryptokit
let key = "\\x6e\\xa6\\x87\\x76\\x6e\\xac\\xfb\\x9c\\xf0\\x5e\\x91\\x5f\\xfc\\xeb\\x62\\x44\\xaa\\x51\\x77\\x23\\x07\\x32\\xa7\\x2f\\x55\\xff\\xd6\\xdd\\x5e\\x83\\x38\\xad"
let iv = "\\x50\\xba\\xa5\\x01\\x36\\x80\\x9c\\x56\\x86\\x53\\xb6\\x80"
let ct = "\\x51\\x74\\xb6\\x76\\x1d\\xdb\\xf6\\xe5\\xcd\\x8a\\xcd\\x9a\\xd7\\x44\\xb0\\x14\\xf8\\xc4\\x1d\\x4d\\x2c\\xbd\\xf7\\x52\\x60\\xad\\x1f\\x40\\xdf\\xde\\xab\\x2d"
let tag = "\\xbe\\x15\\xf5\\x6d\\x60\\x6d\\x8d\\x9a\\x54\\x6d\\x6a\\xe3\\x57\\xdf\\x8a\\x7d"
let () =
  let d = AEAD.chacha20_poly1305 ~iv key AEAD.Decrypt in
  d#put_string ct;
  exit (if d#finish_and_get_tag = tag then 0 else 1)
'''
