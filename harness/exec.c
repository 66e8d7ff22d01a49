/* Scenario executor: drives the public API of libdvbcsa from a text file and
 * records what happened.  exec SCENARIO OUTCOME
 *
 * Linked with -Wl,--wrap for the C library's allocation functions, so that the
 * placement, failure and balance of allocations are under control.
 *
 * Scenario commands, one per line (h handle, i buffer, r region):
 *   size                         -> S <batch size>
 *   region r size                guarded memory area: no access before or after
 *   buf i r off hex              payload i at offset off of region r ("e": at its end)
 *   amode m                      0 plain allocator, 1 guarded, 2 guarded + read-only keys while processing
 *   alloc h s|b [k|=k|a]         allocate; from the k-th allocator call on all fail, or only the
 *                                k-th, or only those that ask for an alignment  -> A h ok|null
 *   probe h cw                   if h is a context: set it and use it, compared with a new one
 *   set h cw off                 set key, cw placed at off of a guarded page ("e": at its end)  -> K
 *   free h                       -> X
 *   enc h i | dec h i            single packet   -> D hex
 *   benc h maxlen mode i...      batch; mode: 0 array ends at guard page, 1 entries follow the terminator,
 *                                4 as many batches as it takes (for comparing different batch sizes)  -> D hex...
 *   bdec h maxlen mode i...
 *   try benc|bdec h maxlen i...  the same in a child process  -> R returned|signal <changed?>
 *   env 0|1                      whatever the library asks of the environment is there (kept by reset)
 *   opfail 0|1                   all allocations fail during set/enc/dec/benc/bdec
 *   fpenv n                      floating-point environment n for the following operations
 *   recycle 0|1                  guarded allocator reuses freed addresses at once
 *   reset                        forget everything                 -> Z
 *   ref s|b e|d cw maxlen|- hex  the operation alone, in a fresh context, aligned -> Q hex
 *   fresh ...                    the same in a fresh process
 * Lines starting with '!' report side effects no operation may have.
 */
#include <dvbcsa/dvbcsa.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>

#define MAXR 700
#define MAXB 2048
#define MAXH 512

static FILE *out;
static size_t page;
static const char *phase = "start";

static void die(const char *m) { fprintf(out ? out : stderr, "E %s\n", m); if (out) fflush(out); _exit(70); }

/* ---------------------------------------------------------------- memory */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); void *__real_sbrk(intptr_t);

static int in_lib;                 /* inside a call of the library */
static int amode, opfail, recycle, envmode;
static long calls, fail_from;      /* allocator calls in this library call; failing from */
static int fail_one, fail_aligned, failed_some;
static long live;                  /* blocks the library holds */
struct blk { unsigned char *map; size_t maplen; unsigned char *p; size_t n; int used; };
static struct blk blks[4096];
static int nblk;
static long lib_frees_bad;

static struct blk *findblk(void *p) { for (int i = 0; i < nblk; i++) if (blks[i].used && blks[i].p == p) return &blks[i]; return NULL; }

static int in_aligned;
static void *take(size_t align, size_t n, int zero)
{
  calls++;
  if ((fail_from && (fail_one ? calls == fail_from : calls >= fail_from)) || (fail_aligned && in_aligned))
    { errno = ENOMEM; failed_some = 1; return NULL; }
  struct blk *b = NULL;
  for (int i = 0; i < nblk && !b; i++) if (!blks[i].used && !(blks[i].map && !recycle)) b = &blks[i];
  if (recycle)
    for (int i = 0; i < nblk; i++)
      if (!blks[i].used && blks[i].map && blks[i].n == n && (uintptr_t)blks[i].p % align == 0)
        {
          mprotect(blks[i].map + page, blks[i].maplen - 2 * page, PROT_READ | PROT_WRITE);
          if (zero) memset(blks[i].p, 0, n);
          blks[i].used = 1; live++; return blks[i].p;     /* with its old contents */
        }
  if (!b || b->map) { if (nblk == 4096) die("too many blocks"); b = &blks[nblk++]; }
  memset(b, 0, sizeof *b);
  b->n = n; b->used = 1; live++;
  if (amode == 0)
    {
      if (align <= 16) b->p = __real_malloc(n ? n : 1);
      else if (__real_posix_memalign((void **)&b->p, align, n ? n : 1)) b->p = NULL;
      if (!b->p) die("out of memory");
      if (zero) memset(b->p, 0, n); else memset(b->p, 0xA5, n);
      return b->p;
    }
  /* at the end of mapped memory, aligned to `align' and to nothing more */
  size_t body = (n + 4 * align + page) / page * page;
  b->maplen = body + 2 * page;
  b->map = __real_mmap(NULL, b->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b->map == MAP_FAILED || mprotect(b->map + page, body, PROT_READ | PROT_WRITE)) die("mmap");
  memset(b->map + page, 0xC7, body);
  unsigned char *e = b->map + page + body;
  b->p = (unsigned char *)(((uintptr_t)e - n) / (2 * align) * (2 * align) + align);
  if (b->p + n > e) b->p -= 2 * align;
  if (zero) memset(b->p, 0, n);
  return b->p;
}

static void give(void *p)
{
  if (!p) return;
  struct blk *b = findblk(p);
  if (!b) { lib_frees_bad++; return; }
  b->used = 0; live--;
  if (b->map)
    {
      if (recycle) mprotect(b->map + page, b->maplen - 2 * page, PROT_NONE);
      else { __real_munmap(b->map, b->maplen); b->map = NULL; }
    }
  else { memset(b->p, 0x5A, b->n); __real_free(b->p); }
  b->p = b->map ? b->p : NULL;
}

/* what the library would write elsewhere than to stdout and stderr: the system's log, files */
static int wrote;
void __wrap_syslog(int p, const char *f, ...) { wrote += in_lib; }
void __wrap_vsyslog(int p, const char *f, va_list a) { wrote += in_lib; }
void __wrap___syslog_chk(int p, int l, const char *f, ...) { wrote += in_lib; }
void __wrap___vsyslog_chk(int p, int l, const char *f, va_list a) { wrote += in_lib; }
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *);
static int for_writing(const char *m) { if (!in_lib || !strpbrk(m, "wa+")) return 0; wrote++; errno = EACCES; return 1; }
FILE *__wrap_fopen(const char *n, const char *m) { return for_writing(m) ? NULL : __real_fopen(n, m); }
FILE *__wrap_fopen64(const char *n, const char *m) { return for_writing(m) ? NULL : __real_fopen64(n, m); }
int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...);
static int opens(int (*f)(const char *, int, ...), const char *n, int fl, int mode) { if (in_lib && (fl & (O_WRONLY | O_RDWR | O_CREAT))) { wrote++; errno = EACCES; return -1; } return f(n, fl, mode); }
int __wrap_open(const char *n, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return opens(__real_open, n, fl, m); }
int __wrap_open64(const char *n, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return opens(__real_open64, n, fl, m); }

char *__real_getenv(const char *); char *__real_secure_getenv(const char *);
char *__wrap_getenv(const char *n) { return in_lib && envmode ? "1" : __real_getenv(n); }
char *__wrap_secure_getenv(const char *n) { return in_lib && envmode ? "1" : __real_secure_getenv(n); }
void *__wrap_malloc(size_t n) { return in_lib ? take(16, n, 0) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { return in_lib ? take(16, a * n, 1) : __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n)
{
  if (!in_lib) return __real_realloc(p, n);
  if (!p) return take(16, n, 0);
  struct blk *b = findblk(p);
  if (!b) { lib_frees_bad++; return NULL; }
  size_t m = b->n < n ? b->n : n;
  void *q = take(16, n, 0);
  if (q) { memcpy(q, p, m); give(p); }
  return q;
}
void __wrap_free(void *p) { if (in_lib) give(p); else __real_free(p); }
int __wrap_posix_memalign(void **q, size_t a, size_t n)
{
  if (!in_lib) return __real_posix_memalign(q, a, n);
  if (a < sizeof(void *) || (a & (a - 1))) { calls++; return EINVAL; }
  in_aligned = 1; void *p = take(a, n, 0); in_aligned = 0;
  if (!p) return ENOMEM;
  *q = p; return 0;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { if (!in_lib) return __real_aligned_alloc(a, n); in_aligned = 1; void *p = take(a, n, 0); in_aligned = 0; return p; }
void *__wrap_memalign(size_t a, size_t n) { if (!in_lib) return __real_memalign(a, n); in_aligned = 1; void *p = take(a, n, 0); in_aligned = 0; return p; }

/* memory straight from the system: it fails, and is counted, like the rest */
static struct { char *p; size_t n; } maps[4096];
static int nmaps;
static void *sysmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
  if (!in_lib) return __real_mmap(a, n, pr, fl, fd, o);
  calls++;
  if (fail_from && (fail_one ? calls == fail_from : calls >= fail_from)) { errno = ENOMEM; failed_some = 1; return MAP_FAILED; }
  void *p = __real_mmap(a, n, pr, fl, fd, o);
  if (p != MAP_FAILED && nmaps < 4096) { maps[nmaps].p = p; maps[nmaps++].n = n; live++; }
  return p;
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { return sysmap(a, n, pr, fl, fd, o); }
void *__wrap_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return sysmap(a, n, pr, fl, fd, o); }
int __wrap_munmap(void *p, size_t n)
{
  if (in_lib)
    for (int i = 0; i < nmaps; i++)
      if (maps[i].p >= (char *)p && maps[i].p + maps[i].n <= (char *)p + n) { maps[i--] = maps[--nmaps]; live--; }
  return __real_munmap(p, n);
}
void *__wrap_sbrk(intptr_t n)
{
  if (in_lib && n)
    {
      calls++;
      if (fail_from && (fail_one ? calls == fail_from : calls >= fail_from)) { errno = ENOMEM; failed_some = 1; return (void *)-1; }
      live += n > 0 ? 1 : -1;
    }
  return __real_sbrk(n);
}

static void protect_keys(int on)
{
  for (int i = 0; i < nblk; i++)
    if (blks[i].used && blks[i].map)
      mprotect(blks[i].map + page, blks[i].maplen - 2 * page, on ? PROT_READ : PROT_READ | PROT_WRITE);
}
/* bytes around a guarded block must keep their fill */
static int block_slack_bad(void)
{
  for (int i = 0; i < nblk; i++)
    if (blks[i].used && blks[i].map)
      {
        unsigned char *a = blks[i].map + page, *z = blks[i].map + blks[i].maplen - page;
        for (unsigned char *c = a; c < blks[i].p; c++) if (*c != 0xC7) return 1;
        for (unsigned char *c = blks[i].p + blks[i].n; c < z; c++) if (*c != 0xC7) return 1;
      }
  return 0;
}

/* --------------------------------------------------------------- regions */
struct region { unsigned char *map, *p, *shadow; size_t n, body; };
static struct region reg[MAXR];
struct buf { int r; unsigned char *p; unsigned len; int used; };
static struct buf bufs[MAXB];
static struct region cwreg, descreg;

static void mkregion(struct region *g, size_t n)
{
  size_t body = (n + page - 1) / page * page;
  if (!body) body = page;
  if (g->map && g->body != body) { munmap(g->map, g->body + 2 * page); __real_free(g->shadow); g->map = NULL; }
  if (!g->map)
    {
      g->map = mmap(NULL, body + 2 * page, PROT_NONE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      if (g->map == MAP_FAILED || mprotect(g->map + page, body, PROT_READ | PROT_WRITE)) die("mmap region");
      g->shadow = __real_malloc(body);
      if (!g->shadow) die("oom");
      g->body = body;
    }
  /* the region ends at the upper guard page and, if of whole pages, begins at the lower */
  g->n = n; g->p = g->map + page;
  memset(g->p, 0x3C, body); memset(g->shadow, 0x3C, body);
}

/* --------------------------------------------------------------- helpers */
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static size_t unhex(const char *s, unsigned char *d) { size_t n = 0; if (*s == '-') return 0; for (; s[0] && s[1]; s += 2) d[n++] = hexv(s[0]) * 16 + hexv(s[1]); return n; }
static void puthex(const unsigned char *p, size_t n)
{
  static char *b; static size_t cap;
  if (2 * n + 1 > cap) { cap = 2 * n + 4096; b = __real_realloc(b, cap); }
  for (size_t i = 0; i < n; i++) { b[2 * i] = "0123456789abcdef"[p[i] >> 4]; b[2 * i + 1] = "0123456789abcdef"[p[i] & 15]; }
  if (!n) { b[0] = '-'; n = 1; fwrite(b, 1, 1, out); } else fwrite(b, 1, 2 * n, out);
}

/* ------------------------------------------------- floating-point environment */
static int fpmode;
#if defined(__x86_64__) || defined(__i386__)
struct fpu { uint32_t env[7]; uint32_t mxcsr; };
static void fp_get(struct fpu *f) { __asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(f->env)); __asm__ volatile("stmxcsr %0" : "=m"(f->mxcsr)); }
static void fp_set(int m)
{
  static const uint16_t cw[] = { 0x037f, 0x0f7f, 0x027f, 0x0b7f, 0x077f };
  static const uint32_t mx[] = { 0x1f80, 0x7f80, 0x9f80, 0x3f80, 0xdfc0 };
  uint16_t c = cw[m % 5]; uint32_t x = mx[m % 5];
  __asm__ volatile("fninit\n\tfldcw %0" :: "m"(c)); __asm__ volatile("ldmxcsr %0" :: "m"(x));
}
static void fp_check(const struct fpu *a)
{
  struct fpu b; fp_get(&b);
  if ((b.env[2] & 0xffff) != 0xffff) fprintf(out, "! fp x87 registers not free (tag word %04x)\n", b.env[2] & 0xffff);
  else if (((a->env[0] ^ b.env[0]) & 0xffff) || a->mxcsr != b.mxcsr) fprintf(out, "! fp control or status word changed\n");
  volatile double x = 1.0; volatile long double y = 3.0L; volatile long double z = (long double)x / y;
  if (!(z > 0.3L && z < 0.34L)) fprintf(out, "! fp arithmetic wrong\n");
}
#else
struct fpu { int round; int exc; };
static void fp_get(struct fpu *f) { f->round = fegetround(); f->exc = fetestexcept(FE_ALL_EXCEPT); }
static void fp_set(int m)
{
  static const int r[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
  feclearexcept(FE_ALL_EXCEPT); fesetround(r[m % 4]); if (m == 4) feraiseexcept(FE_DIVBYZERO);
}
static void fp_check(const struct fpu *a)
{
  struct fpu b; fp_get(&b);
  if (a->round != b.round || a->exc != b.exc) fprintf(out, "! fp environment changed\n");
}
#endif
static struct fpu fp0;

/* --------------------------------------------------------- library calls */
static long live0;
static void enter_op(const char *what, int keys_ro)
{
  phase = what; calls = 0; fail_from = opfail ? 1 : 0; live0 = live;
  if (amode == 2 && keys_ro) protect_keys(1);
  fp_set(fpmode); fp_get(&fp0);
  in_lib = 1;
}
static void leave_op(int keys_ro)
{
  in_lib = 0;
  fp_check(&fp0);
  fp_set(0);
  if (amode == 2 && keys_ro) protect_keys(0);
  if (live != live0) fprintf(out, "! net %ld blocks kept\n", live - live0);
  fail_from = 0; phase = "between operations";
}

static void stray(void)
{
  for (int r = 0; r < MAXR; r++)
    if (reg[r].map && reg[r].n && memcmp(reg[r].p, reg[r].shadow, reg[r].body))
      {
        size_t o = 0; while (reg[r].p[o] == reg[r].shadow[o]) o++;
        fprintf(out, "! stray region %d offset %zu\n", r, o);
        memcpy(reg[r].shadow, reg[r].p, reg[r].body);
      }
  if (block_slack_bad()) fprintf(out, "! stray around a key context\n");
  if (lib_frees_bad) { fprintf(out, "! badfree\n"); lib_frees_bad = 0; }
}
static void accept(int i) { memcpy(reg[bufs[i].r].shadow + (bufs[i].p - reg[bufs[i].r].p), bufs[i].p, bufs[i].len); }

struct handle { int kind; void *k; };
static struct handle H[MAXH];

static void onsig(int s)
{
  in_lib = 0;
  fprintf(out, "F %s signal %d during %s\n", s == SIGABRT ? "abort" : "fault", s, phase);
  fflush(out); _exit(3);
}

static void readonly(struct region *g, int on) { mprotect(g->map + page, g->body, on ? PROT_READ : PROT_READ | PROT_WRITE); }

static int hung;                   /* calls in child processes that did not return */
static struct dvbcsa_bs_batch_s *mkdesc(int mode, int n, const int *ix)
{
  size_t extra = mode == 1 ? 5 : 0, sz = (n + 1 + extra) * sizeof(struct dvbcsa_bs_batch_s);
  mkregion(&descreg, 2 * page);
  if (sz > descreg.n) die("batch too large");
  struct dvbcsa_bs_batch_s *d = (void *)(descreg.p + descreg.body - sz);
  if (mode == 2) d = (void *)descreg.p;
  if (mode == 3) d = (void *)(descreg.p + 136);
  for (int j = 0; j < n; j++) { d[j].data = bufs[ix[j]].p; d[j].len = bufs[ix[j]].len; }
  d[n].data = NULL; d[n].len = mode == 0 ? 0 : 0x7fffffff;
  for (size_t j = 0; j < extra; j++)
    if (j % 2) { d[n + 1 + j].data = (void *)16; d[n + 1 + j].len = 184; }
    else { int q = 0; while (q < MAXB && !bufs[q].used) q++; d[n + 1 + j].data = q < MAXB ? bufs[q].p : (void *)24; d[n + 1 + j].len = q < MAXB ? bufs[q].len : 8; }
  memcpy(descreg.shadow, descreg.p, descreg.body);
  return d;
}

static void bcall(int enc, int h, unsigned maxlen, struct dvbcsa_bs_batch_s *d)
{
  if (enc) dvbcsa_bs_encrypt(H[h].k, d, maxlen); else dvbcsa_bs_decrypt(H[h].k, d, maxlen);
}

static void probe(int h, const unsigned char *w)
{
  static unsigned char d[2][2][190];
  in_lib = 1;
  void *n = H[h].kind == 's' ? (void *)dvbcsa_key_alloc() : (void *)dvbcsa_bs_key_alloc(), *ks[2] = { H[h].k, n };
  in_lib = 0;
  if (!n) die("probe");
  for (int i = 0; i < 2; i++)
    {
      for (int j = 0; j < 190; j++) d[i][0][j] = d[i][1][j] = j * 7 + w[j % 8];
      phase = "probe"; in_lib = 1;
      if (H[h].kind == 's')
        { dvbcsa_key_set(w, ks[i]); dvbcsa_encrypt(ks[i], d[i][0], 183); dvbcsa_decrypt(ks[i], d[i][1], 183); }
      else
        {
          struct dvbcsa_bs_batch_s b[3] = { { d[i][0], 183 }, { d[i][1], 40 }, { NULL, 0 } };
          dvbcsa_bs_key_set(w, ks[i]); dvbcsa_bs_encrypt(ks[i], b, 184); b[0].len = 100; dvbcsa_bs_decrypt(ks[i], b, 104);
        }
      in_lib = 0; phase = "between operations";
    }
  if (memcmp(d[0], d[1], sizeof d[0])) fprintf(out, "! dup context %d not usable\n", h);
  in_lib = 1; if (H[h].kind == 's') dvbcsa_key_free(n); else dvbcsa_bs_key_free(n); in_lib = 0;
}

static void freeh(int h)
{
  if (!H[h].k) return;
  phase = "free"; long l = live; in_lib = 1; calls = 0;
  if (H[h].kind == 's') dvbcsa_key_free(H[h].k); else dvbcsa_bs_key_free(H[h].k);
  in_lib = 0; phase = "between operations";
  (void)l; H[h].k = NULL;
}

static void limit_output_check(int fd)
{
  static off_t seen;
  struct stat st; fflush(stdout);
  if (wrote) { fprintf(out, "! output to the system's log or a file, %d times\n", wrote); wrote = 0; }
  if (fstat(fd, &st) == 0 && st.st_size > seen) { seen = st.st_size; fprintf(out, "! output %ld bytes written to stdout or stderr\n", (long)st.st_size); }
}

/* one operation with everything fresh and well aligned; result in refbuf */
static unsigned char *refbuf; static size_t refcap;
static int reference(int kind, int enc, const char *cwhex, const char *ml, const char *hx)
{
  size_t len = *hx == '-' ? 0 : strlen(hx) / 2;
  static unsigned char cw[16] __attribute__((aligned(16)));
  unhex(cwhex, cw); unhex(hx, refbuf);
  if (kind == 's')
    {
      struct dvbcsa_key_s *k = dvbcsa_key_alloc(); if (!k) return -1;
      dvbcsa_key_set(cw, k);
      if (enc) dvbcsa_encrypt(k, refbuf, len); else dvbcsa_decrypt(k, refbuf, len);
      dvbcsa_key_free(k);
    }
  else
    {
      struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); if (!k) return -1;
      struct dvbcsa_bs_batch_s d[2] = { { refbuf, len }, { NULL, 0 } };
      dvbcsa_bs_key_set(cw, k);
      if (enc) dvbcsa_bs_encrypt(k, d, atoi(ml)); else dvbcsa_bs_decrypt(k, d, atoi(ml));
      dvbcsa_bs_key_free(k);
    }
  return (int)len;
}

int main(int argc, char **argv)
{
  if (argc != 3) return 64;
  page = sysconf(_SC_PAGESIZE);
  FILE *in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
  if (!in || !out) return 66;
  setvbuf(out, __real_malloc(1 << 20), _IOFBF, 1 << 20);
  /* whatever the library prints goes here */
  char tmpl[4096]; snprintf(tmpl, sizeof tmpl, "%s.stdio", argv[2]);
  int ofd = open(tmpl, O_RDWR | O_CREAT | O_TRUNC, 0600); if (ofd < 0) return 66;
  unlink(tmpl); dup2(ofd, 1); dup2(ofd, 2);
  static unsigned char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, 0 };
  for (int i = 0; sigs[i]; i++) sigaction(sigs[i], &sa, NULL);
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  mkregion(&cwreg, page);

  char *line = NULL; size_t cap = 0; ssize_t n;
  static int ix[MAXB];
  while ((n = getline(&line, &cap, in)) > 0)
    {
      while (n && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
      if (!n || line[0] == '#') continue;
      char *save, *c = strtok_r(line, " ", &save);
#define ARG() strtok_r(NULL, " ", &save)
      if (!strcmp(c, "size")) { phase = c; fprintf(out, "S %u\n", dvbcsa_bs_batch_size()); }
      else if (!strcmp(c, "region"))
        { int r = atoi(ARG()); if (r < 0 || r >= MAXR) die("region"); mkregion(&reg[r], strtoul(ARG(), 0, 10)); for (int i = 0; i < MAXB; i++) if (bufs[i].used && bufs[i].r == r) bufs[i].used = 0; }
      else if (!strcmp(c, "buf"))
        {
          int i = atoi(ARG()), r = atoi(ARG()); char *o = ARG(), *hx = ARG();
          if (i < 0 || i >= MAXB || r < 0 || r >= MAXR || !reg[r].map) die("buf");
          size_t len = *hx == '-' ? 0 : strlen(hx) / 2;
          unsigned char *p = *o == 'e' ? reg[r].p + reg[r].body - len : reg[r].p + strtoul(o, 0, 10);
          if (p < reg[r].p || p + len > reg[r].p + reg[r].body) die("buf outside region");
          unhex(hx, p); bufs[i].r = r; bufs[i].p = p; bufs[i].len = len; bufs[i].used = 1; accept(i);
        }
      else if (!strcmp(c, "amode")) amode = atoi(ARG());
      else if (!strcmp(c, "env")) envmode = atoi(ARG());
      else if (!strcmp(c, "opfail")) opfail = atoi(ARG());
      else if (!strcmp(c, "recycle")) recycle = atoi(ARG());
      else if (!strcmp(c, "fpenv")) fpmode = atoi(ARG());
      else if (!strcmp(c, "alloc"))
        {
          int h = atoi(ARG()); char *k = ARG(), *f = ARG();
          if (h < 0 || h >= MAXH || H[h].k) die("alloc");
          phase = "alloc"; calls = 0; live0 = live; errno = 0; failed_some = 0;
          fail_aligned = f && *f == 'a'; fail_one = f && *f == '='; fail_from = !f || fail_aligned ? 0 : atoi(f + fail_one);
          in_lib = 1;
          void *p = *k == 's' ? (void *)dvbcsa_key_alloc() : (void *)dvbcsa_bs_key_alloc();
          in_lib = 0; phase = "between operations";
          int failed = failed_some; fail_from = fail_one = fail_aligned = 0;
          fprintf(out, "A %d %s\n", h, p ? "ok" : "null");
          if (!p && live != live0) fprintf(out, "! leak %ld blocks after a failed allocation\n", live - live0);
          if (!p && !failed) fprintf(out, "! spurious allocation failure\n");
          if (p && live == live0) fprintf(out, "! dup context without memory of its own\n");
          for (int j = 0; j < MAXH; j++) if (p && H[j].k == p) fprintf(out, "! dup context already in use\n");
          H[h].kind = *k; H[h].k = p;
          stray();
        }
      else if (!strcmp(c, "probe"))
        { int h = atoi(ARG()); char *hx = ARG(); unsigned char w[8]; unhex(hx, w); if (H[h].k) probe(h, w); }
      else if (!strcmp(c, "free"))
        { int h = atoi(ARG()); freeh(h); fprintf(out, "X %d\n", h); stray();
          int any = 0; for (int j = 0; j < MAXH; j++) if (H[j].k) any = 1;
          if (!any && live) { fprintf(out, "! leak %ld blocks after freeing all contexts\n", live); live = 0; } }
      else if (!strcmp(c, "set"))
        {
          int h = atoi(ARG()); char *hx = ARG(), *o = ARG();
          if (!H[h].k) die("set");
          unsigned char *p = *o == 'e' ? cwreg.p + cwreg.body - 8 : cwreg.p + strtoul(o, 0, 10);
          memset(cwreg.p, 0x69, cwreg.body); unhex(hx, p); memcpy(cwreg.shadow, cwreg.p, cwreg.body);
          readonly(&cwreg, 1); enter_op(c, 0);
          if (H[h].kind == 's') dvbcsa_key_set(p, H[h].k); else dvbcsa_bs_key_set(p, H[h].k);
          leave_op(0); readonly(&cwreg, 0);
          if (memcmp(cwreg.p, cwreg.shadow, cwreg.body)) fprintf(out, "! cw changed\n");
          memset(p, 0x96, 8);                       /* the caller reuses the memory */
          fprintf(out, "K %d\n", h); stray();
        }
      else if (!strcmp(c, "enc") || !strcmp(c, "dec"))
        {
          int h = atoi(ARG()), i = atoi(ARG());
          if (!H[h].k || H[h].kind != 's' || !bufs[i].used) die("enc/dec");
          enter_op(c, 1);
          if (*c == 'e') dvbcsa_encrypt(H[h].k, bufs[i].p, bufs[i].len); else dvbcsa_decrypt(H[h].k, bufs[i].p, bufs[i].len);
          leave_op(1);
          accept(i); fprintf(out, "D "); puthex(bufs[i].p, bufs[i].len); fputc('\n', out); stray();
        }
      else if (!strcmp(c, "benc") || !strcmp(c, "bdec"))
        {
          int h = atoi(ARG()); unsigned maxlen = strtoul(ARG(), 0, 10); int mode = atoi(ARG()), k = 0; char *a;
          while ((a = ARG())) { ix[k] = atoi(a); if (!bufs[ix[k]].used) die("batch buf"); k++; }
          if (!H[h].k || H[h].kind != 'b') die("batch key");
          int most = mode == 4 ? (int)dvbcsa_bs_batch_size() : k;
          for (int at = 0; at < k || !at; at += most)
            {
              struct dvbcsa_bs_batch_s *d = mkdesc(mode == 4 ? 0 : mode, k - at < most ? k - at : most, ix + at);
              readonly(&descreg, 1); enter_op(c, 1); bcall(c[1] == 'e', h, maxlen, d); leave_op(1); readonly(&descreg, 0);
              if (memcmp(descreg.p, descreg.shadow, descreg.body)) fprintf(out, "! desc descriptors changed\n");
              if (most < 1) break;
            }
          fprintf(out, "D");
          for (int j = 0; j < k; j++) { accept(ix[j]); fputc(' ', out); puthex(bufs[ix[j]].p, bufs[ix[j]].len); }
          fputc('\n', out); stray();
        }
      else if (!strcmp(c, "try"))
        {
          char *b = ARG(); int h = atoi(ARG()); unsigned maxlen = strtoul(ARG(), 0, 10); int k = 0; char *a;
          while ((a = ARG())) ix[k++] = atoi(a);
          struct dvbcsa_bs_batch_s *d = mkdesc(0, k, ix);
          fflush(out);
          pid_t pid = fork();
          if (pid < 0) die("fork");
          if (!pid)
            {
              for (int i = 0; sigs[i]; i++) signal(sigs[i], SIG_DFL);
              int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
              alarm(maxlen <= 184 && maxlen % 8 == 0 ? 20 : hung < 2 ? 12 : 1);
              in_lib = 1; bcall(b[1] == 'e', h, maxlen, d); _exit(0);
            }
          int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++;
          int changed = 0;
          for (int r = 0; r < MAXR; r++) if (reg[r].map && reg[r].n && memcmp(reg[r].p, reg[r].shadow, reg[r].body)) changed = 1;
          if (WIFSIGNALED(st)) fprintf(out, "R signal %d", WTERMSIG(st)); else fprintf(out, "R exit %d", WEXITSTATUS(st));
          fprintf(out, " %s", changed ? "changed" : "unchanged");
          for (int j = 0; j < k; j++) { fputc(' ', out); puthex(bufs[ix[j]].p, bufs[ix[j]].len); accept(ix[j]); }
          fputc('\n', out);
          stray();
        }
      else if (!strcmp(c, "ref") || !strcmp(c, "fresh"))
        {
          char *kd = ARG(), *op = ARG(), *cw = ARG(), *ml = ARG(), *hx = ARG();
          size_t len = *hx == '-' ? 0 : strlen(hx) / 2;
          if (len + 64 > refcap)
            { if (refbuf) munmap(refbuf, refcap); refcap = (len + 64 + 65535) / 65536 * 65536;
              refbuf = mmap(NULL, refcap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
              if (refbuf == MAP_FAILED) die("mmap ref"); }
          phase = "reference";
          if (*c == 'r') { reference(*kd, *op == 'e', cw, ml, hx); fprintf(out, "Q "); puthex(refbuf, len); fputc('\n', out); }
          else
            {
              fflush(out);
              pid_t pid = fork();
              if (pid < 0) die("fork");
              if (!pid)
                { for (int i = 0; sigs[i]; i++) signal(sigs[i], SIG_DFL); alarm(20); reference(*kd, *op == 'e', cw, ml, hx); _exit(0); }
              int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
              if (st) fprintf(out, "Q crash\n"); else { fprintf(out, "Q "); puthex(refbuf, len); fputc('\n', out); }
            }
          phase = "between operations";
        }
      else if (!strcmp(c, "reset"))
        {
          for (int h = 0; h < MAXH; h++) freeh(h);
          for (int i = 0; i < MAXB; i++) bufs[i].used = 0;
          for (int r = 0; r < MAXR; r++) if (reg[r].map) { reg[r].n = 0; }
          if (live) { fprintf(out, "! leak %ld blocks after freeing all contexts\n", live); live = 0; }
          if (lib_frees_bad) { fprintf(out, "! badfree\n"); lib_frees_bad = 0; }
          for (int i = 0; i < nblk; i++) if (blks[i].map) { munmap(blks[i].map, blks[i].maplen); }
          nblk = 0; amode = opfail = fpmode = recycle = 0;
          fprintf(out, "Z\n");
        }
      else die(c);
      limit_output_check(ofd);
    }
  fprintf(out, "END\n"); fclose(out);
  return 0;
}
