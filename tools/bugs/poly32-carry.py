PROP="C22"
NEEDS="the 32-bit Poly1305 arithmetic and an accumulator that ends just above a multiple of 2^26, so that the last reduction carries out of the lowest limb"
BREAKS="that carry is dropped in the 32-bit variant, so that its tag differs from the 64-bit one"
EDITS=[("src/poly1305-donna-32.h","""	h0 += c * 5; c = h0 >> 26; h0 = h0 & 0x3ffffff;
	h1 +=     c;

	/* compute h + -p */""","""	h0 += c * 5; h0 = h0 & 0x3ffffff;

	/* compute h + -p */""")]
import random
def _msgs():
    P=2**130-5; r=random.Random(7); out=[]
    while len(out)<40:
        k=r.randrange(2**128)&0x0ffffffc0ffffffc0ffffffc0fffffff
        v=2**26*r.randrange(1,4)+r.randrange(5)
        m=(v*pow(k,-1,P)-2**128)%P
        if m<2**128: out.append((k.to_bytes(16,"little"),m.to_bytes(16,"little")))
    return out
_rows=",\n".join("{{%s},{%s}}"%(",".join(map(str,k)),",".join(map(str,m))) for k,m in _msgs())
DEMO_SH='''#!/bin/bash
# exits 0 iff the 32-bit and 64-bit Poly1305 agree on accumulators that end just above a multiple of 2^26
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/a.c" <<'X'
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#define EXPORT
#undef __SIZEOF_INT128__
#define poly1305_init p32_init
#define poly1305_update p32_update
#define poly1305_finish p32_finish
#include "poly1305-donna.c"
X
cat > "$W/b.c" <<'X'
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#define EXPORT static
#include "poly1305-donna.c"
void p32_init(poly1305_context *, const unsigned char *);
void p32_update(poly1305_context *, const unsigned char *, size_t);
void p32_finish(poly1305_context *, unsigned char *);
static struct { unsigned char r[16], m[16]; } t[] = {
'''+_rows+'''
};
int main(void) {
  int i;
  for (i = 0; i < sizeof t / sizeof *t; i++) {
    unsigned char key[32] = {0}, x[16], y[16]; poly1305_context a, b;
    memcpy(key, t[i].r, 16);
    poly1305_init(&a, key); poly1305_update(&a, t[i].m, 16); poly1305_finish(&a, x);
    p32_init(&b, key); p32_update(&b, t[i].m, 16); p32_finish(&b, y);
    if (memcmp(x, y, 16)) return 1;
  }
  return 0;
}
X
gcc -w -O1 -I"$R/src" -o "$W/d" "$W/a.c" "$W/b.c" || exit 2
"$W/d"
'''
