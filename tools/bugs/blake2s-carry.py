PROP="C23"
NEEDS="a BLAKE2s message longer than 4 GiB"
BREAKS="the carry out of the low 32 bits of the byte counter is detected one block late or not at all"
EDITS=[("src/blake2.c","""  uint32_t m[16];
  int i;
  const uint8_t * sigma;

  /* Update the length */
  s->len[0] += numbytes;
  if (s->len[0] < numbytes) s->len[1]++; /* carry */""","""  uint32_t m[16];
  int i;
  const uint8_t * sigma;

  /* Update the length */
  s->len[0] += numbytes;
  if (s->len[0] == 0 && numbytes < 64) s->len[1]++; /* carry */""")]
DEMO_SH='''#!/bin/bash
# exits 0 iff BLAKE2s counts bytes beyond 2^32
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/d.c" <<'X'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <assert.h>
#define EXPORT static
#include "blake2.c"
int main(void) {
  /* 2^32 bytes in, plus a bit: the counter must have carried */
  struct blake2s s; static unsigned char z[1 << 20]; int i;
  blake2s_init(&s, 32, 0, NULL);
  s.len[0] = 0xffffff00u;   /* as after 2^32 - 256 bytes */
  for (i = 0; i < 10; i++) blake2s_add_data(&s, z, 100);
  return s.len[1] == 1 ? 0 : 1;
}
X
gcc -w -O1 -I"$R/src" -o "$W/d" "$W/d.c" || exit 2
"$W/d"
'''
