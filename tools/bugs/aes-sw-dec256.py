PROP="C22"
NEEDS="AES decryption with a 256-bit key in the portable implementation (no AES instructions)"
BREAKS="the last inner round key of the decryption schedule is not transformed for 14 rounds"
EDITS=[("src/rijndael-alg-fst.c","""	for (i = 1; i < Nr; i++) {
		rk += 4;
		rk[0] =
			Td0[Te4[(rk[0] >> 24)       ] & 0xff] ^""","""	for (i = 1; i < (Nr > 13 ? 13 : Nr); i++) {
		rk += 4;
		rk[0] =
			Td0[Te4[(rk[0] >> 24)       ] & 0xff] ^""")]
DEMO_SH='''#!/bin/bash
# exits 0 iff the portable AES decrypts what it encrypted, for all key sizes
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/d.c" <<'X'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define EXPORT static
#include "rijndael-alg-fst.c"
int main(void) {
  int k, i, kb; srand(7);
  for (kb = 128; kb <= 256; kb += 64)
    for (k = 0; k < 100; k++) {
      u32 e[4 * (MAXNR + 1)], d[4 * (MAXNR + 1)]; u8 key[32], p[16], c[16], q[16]; int n, m;
      for (i = 0; i < 32; i++) key[i] = rand() >> 5;
      for (i = 0; i < 16; i++) p[i] = rand() >> 5;
      n = rijndaelKeySetupEnc(e, key, kb); m = rijndaelKeySetupDec(d, key, kb);
      rijndaelEncrypt(e, n, p, c); rijndaelDecrypt(d, m, c, q);
      if (memcmp(p, q, 16)) return 1;
    }
  return 0;
}
X
gcc -w -O1 -I"$R/src" -o "$W/d" "$W/d.c" || exit 2
"$W/d"
'''
