PROP="C22"
NEEDS="AES-GCM on a machine without carry-less multiplication (the portable multiplication), with an operand whose first byte has a zero low nibble"
BREAKS="a shortcut for zero nibbles skips the reduction step, so tags differ from the accelerated code"
EDITS=[("src/ghash.c","""            zh ^= (uint64_t) last4[rem] << 48;
            zh ^= ctx->HH[lo];""","""            if( lo != 0 || i != 0 ) zh ^= (uint64_t) last4[rem] << 48;
            zh ^= ctx->HH[lo];""")]
DEMO_SH='''#!/bin/bash
# exits 0 iff the portable GHASH multiplication agrees with the bitwise definition
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/d.c" <<'X'
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#define EXPORT static
#include "ghash.c"
static void ref(const uint8_t *x, const uint8_t *y, uint8_t *z) {
  uint8_t v[16]; int i, j; memcpy(v, y, 16); memset(z, 0, 16);
  for (i = 0; i < 128; i++) {
    int c;
    if (x[i / 8] >> (7 - i % 8) & 1) for (j = 0; j < 16; j++) z[j] ^= v[j];
    c = v[15] & 1;
    for (j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7;
    v[0] >>= 1; if (c) v[0] ^= 0xe1;
  }
}
int main(void) {
  int k, i; srand(7);
  for (k = 0; k < 4000; k++) {
    struct ghash_context c; uint8_t h[16], x[16], a[16], b[16];
    for (i = 0; i < 16; i++) { h[i] = rand() >> 5; x[i] = k % 3 ? (rand() & 1 ? 0 : rand() >> 5) : rand() >> 5; }
    if (k % 5 == 0) memset(x + 8, 0, 8);
    ghash_init(&c, h); ghash_mult(&c, x, a); ref(x, h, b);
    if (memcmp(a, b, 16)) return 1;
  }
  return 0;
}
X
gcc -w -O1 -I"$R/src" -o "$W/d" "$W/d.c" || exit 2
"$W/d"
'''
