PROP="C23"
NEEDS="encrypting more than 4 GiB with ARCFOUR in a single call"
BREAKS="the length is held in an unsigned int, so the rest of the data is not encrypted"
EDITS=[("src/arcfour.c","""                     char * src, char * dst, long len)""","""                     char * src, char * dst, unsigned int len)"""),
       ("src/arcfour.h","""char * src, char * dst, long len);""","""char * src, char * dst, unsigned int len);""")]
DEMO_SH='''#!/bin/bash
# exits 0 iff arcfour_encrypt handles lengths beyond 2^32 (the state must advance)
R=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/d.c" <<'X'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#define EXPORT static
#include "arcfour.c"
int main(void) {
  struct arcfour_key k; unsigned char key[5] = "abcde"; size_t n = ((size_t) 1 << 32) + 100; int i;
  /* one page mapped again and again, so that little memory is used */
  char *p = mmap(NULL, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  FILE *f = tmpfile(); size_t a;
  if (p == MAP_FAILED || !f) return 2;
  if (ftruncate(fileno(f), 1 << 20)) return 2;
  for (a = 0; a + (1 << 20) <= n; a += 1 << 20)
    if (mmap(p + a, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fileno(f), 0) == MAP_FAILED) return 2;
  arcfour_cook_key(&k, key, 5);
  arcfour_encrypt(&k, p, p, n);
  for (i = 0; i < 100; i++) if (p[n - 100 + i]) return 0;
  return 1;
}
X
sed -i '1i #include <unistd.h>' "$W/d.c"
gcc -w -O2 -I"$R/src" -o "$W/d" "$W/d.c" || exit 2
"$W/d"
'''
