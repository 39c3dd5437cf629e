/* Harness-side support: control of the point at which the minor collector runs. */
#define CAML_NAME_SPACE
#define CAML_INTERNALS
#include <caml/mlvalues.h>
#include <caml/memory.h>
#include <caml/alloc.h>
#include <caml/minor_gc.h>
#include <caml/domain_state.h>
#include <caml/misc.h>
#include <caml/gc_ctrl.h>
#include <caml/domain.h>
#include <caml/signals.h>
#include <string.h>

/* After every minor collection the emptied minor heap is overwritten: what is read through
   a stale address is not what was there. */
static void poison_young(void)
{
  memset((char *) Caml_state->young_alloc_start, 0xd9,
         (char *) Caml_state->young_ptr - (char *) Caml_state->young_alloc_start);
}

/* Fill the minor heap until exactly k words are left: the (k+1)-th word
   allocated from now on triggers a minor collection (which moves every young
   value).  k < 0: see below. */
CAMLprim value drv_gc_arm(value vk)
{
  CAMLparam1(vk);
  long k = Long_val(vk);
  caml_minor_gc_end_hook = poison_young;
  if (k == -1) { caml_minor_collection(); CAMLreturn(Val_unit); }
  int request = k < -1;
  int slice = k & 1;
  if (request) k = -k;
  /* Use up the minor heap down to k words, without running any collection, so that what the
     caller has just built is still young. */
  Caml_state->young_trigger = Caml_state->young_alloc_start;
  caml_update_young_limit();
  for (;;) {
    long avail = Caml_state->young_ptr - Caml_state->young_alloc_start;
    long excess = avail - k;
    if (excess < 2) break;                       /* header + 1 word minimum */
    mlsize_t wo = excess - 1;
    if (wo > Max_young_wosize) wo = Max_young_wosize;
    if (excess - (long)(wo + 1) == 1) wo--;
    if (wo < 1) break;
    (void) caml_alloc_small(wo, Abstract_tag);
  }
  if (request) {
    /* as if a collection had been requested just now: it runs at the next large
       allocation or when the -k words left in the minor heap are used up */
    Caml_state->requested_minor_gc = 1;
    if (slice) Caml_state->requested_major_slice = 1;
  }
  CAMLreturn(Val_unit);
}

/* What an operation finds in memory it has not initialised is not zero, and varies: the part
   of the minor heap that it is going to allocate, and the stack. */
static void __attribute__((noinline)) dirty_stack(int c)
{
  volatile char a[24000];
  size_t i;
  for (i = 0; i < sizeof a; i += 8) *(volatile unsigned long *) (a + i) = 0x0101010101010101UL * (unsigned long) c;
}
CAMLprim value drv_dirt(value vc)
{
  int c = Int_val(vc) & 0xff;
  char *e = (char *) Caml_state->young_ptr, *b = (char *) Caml_state->young_alloc_start;
  if (e - b > 32768) b = e - 32768;
  if (e > b) memset(b, c, e - b);
  dirty_stack(c);
  return Val_unit;
}

/* ---- canonical dump of the memory reachable from a value ---- */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <malloc.h>
#include <caml/custom.h>
#include <caml/callback.h>
#include <caml/address_class.h>

CAMLprim value drv_init(value unit)
{
  return Val_unit;
}

#ifdef DRV_WRAP
/* freshly allocated C memory has a fixed content, including the unused bytes at the end
   of blocks, so that dumps do not depend on history */
static long nblocks = 0, fail_in = 0, nfailed = 0;
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n)
{
  void *p;
  p = __real_malloc(n);
  if (p) nblocks++;
  if (p) { size_t k = malloc_usable_size(p); memset(p, 0x5A, k < n + 64 ? k : n); }
  return p;
}
/* allocation on behalf of the library (the run-time system's own tables are not concerned) */
extern void *__real_caml_stat_alloc(size_t);
extern void caml_raise_out_of_memory(void);
void *__wrap_caml_stat_alloc(size_t n)
{
  if (fail_in > 0 && --fail_in == 0) { nfailed++; caml_raise_out_of_memory(); }
  return __real_caml_stat_alloc(n);
}
void *__wrap_calloc(size_t n, size_t m)
{
  void *p = __real_calloc(n, m);
  if (p) nblocks++;
  if (p) { size_t k = malloc_usable_size(p); if (k < n * m + 64) memset((char *) p + n * m, 0, k - n * m); }
  return p;
}
#endif

/* C memory belonging to an object about to be wiped: its content when it is given back */
static struct { void *p; char *at_free; size_t n; } watched[256];
static int nwatched = 0;
#ifdef DRV_WRAP
extern void __real_free(void *);
void __wrap_free(void *p)
{
  int i;
  if (p != NULL) nblocks--;
  if (p != NULL)
    for (i = 0; i < nwatched; i++)
      if (watched[i].p == p && watched[i].at_free == NULL) {
        watched[i].n = malloc_usable_size(p);
        watched[i].at_free = __real_malloc(watched[i].n + 1);
        memcpy(watched[i].at_free, p, watched[i].n);
      }
  __real_free(p);
}
#endif
static void unwatch(void)
{
  int i, n = nwatched;
  nwatched = 0;
  for (i = 0; i < n; i++) if (watched[i].at_free) free(watched[i].at_free);
}
static void watch(void *p)
{
  if (nwatched < 256) { watched[nwatched].p = p; watched[nwatched].at_free = NULL; nwatched++; }
}

static char *mbuf; static size_t mlen, mcap;
static int watching = 0;
static void mput(const void *p, size_t n)
{
  if (mlen + n > mcap) { mcap = 2 * (mlen + n) + 4096; mbuf = realloc(mbuf, mcap); }
  memcpy(mbuf + mlen, p, n); mlen += n;
}
static void mword(char t, uintnat w) { mput(&t, 1); mput(&w, sizeof w); }

static value *seen; static size_t nseen, cseen;
static value *todo; static size_t ntodo, ctodo;

static uintnat heap_lo, heap_hi;
static void find_heap(void)
{
  FILE *f = fopen("/proc/self/maps", "r");
  char line[512];
  heap_lo = heap_hi = 0;
  if (!f) return;
  while (fgets(line, sizeof line, f))
    if (strstr(line, "[heap]")) {
      unsigned long a, b;
      if (sscanf(line, "%lx-%lx", &a, &b) == 2) { heap_lo = a; heap_hi = b; }
    }
  fclose(f);
}
static void visit(value v)
{
  size_t i;
  if (Is_long(v)) { mword('i', (uintnat) v); return; }
  if (! Is_in_value_area(v)) { mword('?', 0); return; }     /* code or foreign pointer */
  if (Tag_val(v) == Infix_tag) v = v - Infix_offset_val(v);
  for (i = 0; i < nseen; i++) if (seen[i] == v) { mword('r', i); return; }
  if (nseen == cseen) { cseen = 2 * cseen + 64; seen = realloc(seen, cseen * sizeof *seen); }
  mword('n', nseen);
  seen[nseen++] = v;
  if (ntodo == ctodo) { ctodo = 2 * ctodo + 64; todo = realloc(todo, ctodo * sizeof *todo); }
  todo[ntodo++] = v;
}
static void dump_block(value v)
{
  tag_t t = Tag_val(v);
  mlsize_t i, n = Wosize_val(v);
  mword('B', t);
  if (t == String_tag) { mword('S', caml_string_length(v)); mput(String_val(v), Wosize_val(v) * sizeof(value)); return; }  /* whatever the length says */
  mword('W', n);
  if (t == Double_tag || t == Double_array_tag || t == Abstract_tag) { mput((void *) v, n * sizeof(value)); return; }
  if (t == Custom_tag) {
    for (i = 1; i < n; i++) {
      uintnat w = (uintnat) Field(v, i);
      if (w >= heap_lo && w < heap_hi && (w & 15) == 0) {
        size_t k = malloc_usable_size((void *) w);
        if (watching) watch((void *) w);
        mword('M', k); mput((void *) w, k);
      } else mword('C', w);
    }
    return;
  }
  i = 0;
  if (t == Closure_tag) i = Start_env_closinfo(Closinfo_val(v));
  if (t == Object_tag) i = 2;                     /* skip method table and identity */
  if (t >= No_scan_tag) return;
  for (; i < n; i++) visit(Field(v, i));
}
CAMLprim value drv_watch(value root)
{
  unwatch();
  nseen = ntodo = mlen = 0;
  find_heap();
  watching = 1;
  visit(root);
  while (ntodo > 0) { value v = todo[--ntodo]; dump_block(v); }
  watching = 0;
  return Val_unit;
}
CAMLprim value drv_memdump(value root, value k)
{
  int i;
  CAMLparam2(root, k);
  CAMLlocal1(s);
  nseen = ntodo = mlen = 0;
  find_heap();
  visit(root);
  while (ntodo > 0) { value v = todo[--ntodo]; dump_block(v); }
  for (i = 0; i < nwatched; i++)
    if (watched[i].at_free) { mword('F', watched[i].n); mput(watched[i].at_free, watched[i].n); }
    else mword('L', 0);
  unwatch();
  s = caml_alloc_string(mlen);
  memcpy((char *) String_val(s), mbuf, mlen);
  caml_callback2(k, s, Val_long(mlen));
  CAMLreturn(Val_unit);
}

/* ---- C memory in use: blocks allocated by this program, bytes allocated by anyone ---- */
CAMLprim value drv_cblocks(value unit)
{
#ifdef DRV_WRAP
  return Val_long(nblocks);
#else
  return Val_long(0);
#endif
}
/* the k-th allocation from now on fails; returns the number of failures so far */
CAMLprim value drv_failmalloc(value k)
{
#ifdef DRV_WRAP
  long r = nfailed;
  fail_in = Long_val(k); nfailed = 0;
  return Val_long(r);
#else
  return Val_long(0);
#endif
}
CAMLprim value drv_cbytes(value unit)
{
#ifdef DRV_WRAP
  struct mallinfo2 m = mallinfo2();
  return Val_long((long) (m.uordblks + m.hblkhd));
#else
  return Val_long(0);
#endif
}

/* ---- failing entropy source: the k-th call from now on fails (native variants) ---- */
static long ent_left = 0, ent_failed = 0;
#ifdef DRV_WRAP
#include <errno.h>
#include <sys/types.h>
extern int __real_getentropy(void *, size_t);
extern ssize_t __real_getrandom(void *, size_t, unsigned);
int __wrap_getentropy(void *p, size_t n)
{
  if (ent_left > 0 && --ent_left == 0) { ent_failed++; errno = EIO; return -1; }
  return __real_getentropy(p, n);
}
ssize_t __wrap_getrandom(void *p, size_t n, unsigned f)
{
  if (ent_left > 0 && --ent_left == 0) { ent_failed++; errno = EIO; return -1; }
  return __real_getrandom(p, n, f);
}
#endif
CAMLprim value drv_entropy(value k)
{
  long r = ent_failed;
  ent_left = Long_val(k); ent_failed = 0;
  return Val_long(r);
}

/* ---- simulated processor (see vk_cpu.h): the outcomes of its random number instruction ---- */
unsigned vk_cpu_ecx = 0x40000000;               /* RDRAND present */
unsigned long vk_rd_val = 0; int vk_rd_ok = 0;
static unsigned long rd_state = 88172645463325252UL;
static long rd_mode = 0, rd_left = -1, rd_flaky = 0, rd_seen = 0;
#if defined(__x86_64)
__attribute__((target("general-regs-only")))
#endif
void vk_rdrand_step(void)
{
  vk_rd_val = 0; vk_rd_ok = 0;
  if (rd_mode == 1 || rd_left == 0) return;
  if (rd_seen < rd_flaky) { rd_seen++; return; }
  rd_seen = 0;
  vk_rd_ok = 1;
  if (rd_mode == 2) { vk_rd_val = ~0UL; return; }
  if (rd_left > 0) rd_left--;
  rd_state ^= rd_state << 13; rd_state ^= rd_state >> 7; rd_state ^= rd_state << 17;
  vk_rd_val = rd_state | 0x8080808080808080UL;
}
CAMLprim value drv_hwsim(value present, value mode, value left, value flaky)
{
  vk_cpu_ecx = Bool_val(present) ? 0x40000000 : 0;
  rd_mode = Long_val(mode); rd_left = Long_val(left); rd_flaky = Long_val(flaky); rd_seen = 0;
  return Val_unit;
}

/* ---- number of machine instructions executed by a closure (single-stepped in a child) ---- */
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
CAMLprim value drv_cost(value f)
{
  CAMLparam1(f);
  long n = 0; int st; pid_t pid = fork();
  if (pid < 0) CAMLreturn(Val_long(-1));
  if (pid == 0) {
    if (ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) _exit(99);
    caml_callback_exn(f, Val_unit);     /* once uncounted: pending actions of the run-time system, lazy binding */
    kill(getpid(), SIGSTOP);
    caml_callback_exn(f, Val_unit);
    kill(getpid(), SIGSTOP);
    _exit(0);
  }
  if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) CAMLreturn(Val_long(-1));
  for (;;) {
    if (ptrace(PTRACE_SINGLESTEP, pid, 0, 0) != 0) { n = -1; break; }
    if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { n = -1; pid = 0; break; }
    if (WSTOPSIG(st) == SIGSTOP) break;
    n++;
    if (n > 20000000) { n = -1; break; }
  }
  if (pid) { kill(pid, SIGKILL); ptrace(PTRACE_CONT, pid, 0, SIGKILL); waitpid(pid, &st, 0); }
  CAMLreturn(Val_long(n));
}

/* ---- byte sequences of gigabytes that occupy little memory ---- */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/syscall.h>
/* [drv_big kind n fill]: a byte sequence of length n outside the OCaml heap.
   kind 0: all zero, memory allocated where written;
   kind 1: the same megabyte (content [fill]) mapped over and over; its last one to two
           megabytes are private copies */
#define MB ((size_t) 1 << 20)
/* Address ranges once used for such sequences are never given to anyone else: a dead
   pointer into one, met by the garbage collector, must stay outside the heap. */
static struct { char *base; size_t len; } pool[4096];
static int npool = 0;
static char *range_get(size_t tot, size_t *len)
{
  int i, best = -1; char *p;
  for (i = 0; i < npool; i++)
    if (pool[i].len >= tot && (best < 0 || pool[i].len < pool[best].len)) best = i;
  if (best >= 0 && pool[best].len <= 2 * tot + 64 * MB) {
    p = pool[best].base; *len = pool[best].len; pool[best] = pool[--npool];
    if (mmap(p, *len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) return NULL;
    return p;
  }
  *len = (tot + 16 * MB - 1) & ~(16 * MB - 1);
  p = mmap(NULL, *len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? NULL : p;
}
static void range_put(char *p, size_t len)
{
  mmap(p, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (npool < 4096) { pool[npool].base = p; pool[npool].len = len; npool++; }
}
CAMLprim value drv_big(value kind, value vn, value fill)
{
  size_t n = Long_val(vn), page = 4096;
  mlsize_t wo = (n + sizeof(value)) / sizeof(value);
  size_t bytes = wo * sizeof(value);
  size_t tot = page + ((bytes + page - 1) & ~(page - 1));
  size_t i, whole, len;
  char *base = range_get(tot, &len), *d;
  if (base == NULL) return Val_unit;
  *(size_t *) base = len;
  d = base + page;
  if (Long_val(kind) == 1) {
    int fd = syscall(SYS_memfd_create, "big", 0);
    if (fd < 0 || ftruncate(fd, MB) != 0) return Val_unit;
    if (write(fd, String_val(fill), MB) != (ssize_t) MB) return Val_unit;
    whole = n / MB; if (whole > 0) whole--;
    for (i = 0; i < whole; i++)
      if (mmap(d + i * MB, MB, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return Val_unit;
    close(fd);
    for (i = whole * MB; i < n; i++) d[i] = String_val(fill)[i % MB];
  }
  *(header_t *) (d - sizeof(header_t)) = Make_header(wo, String_tag, Caml_black);
  d[bytes - 1] = (char) (bytes - 1 - n);
  return (value) d;
}
CAMLprim value drv_bigfree(value v)
{
  char *base = (char *) v - 4096;
  range_put(base, *(size_t *) base);
  return Val_unit;
}
