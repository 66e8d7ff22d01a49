/* What calls of libdvbcsa need: work (basic blocks executed and bytes moved in blocks of
 * 16, if the library is compiled with -fsanitize-coverage=trace-pc) and stack (bytes
 * touched, in pages).  cost SCRIPT OUT, one line each, each in a process of its own:
 *
 *   one enc|dec LEN SHIFT SEED          a single payload
 *   bat enc|dec N MAXLEN LEN SEED       N packets whose descriptors say LEN
 *   mix enc|dec N MAXLEN SEED           N packets of any lengths
 *   set s|b CW                          a key
 *   many s|b enc|dec|set COUNT          a call after COUNT contexts were made and used, two thirds still there
 *
 * C work stack   or   F what
 */
#include <dvbcsa/dvbcsa.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

static int on;
static unsigned long work;
static unsigned long cap; static int resfd;
static void full(void) { unsigned long r[2] = { work, 0 }; if (write(resfd, r, sizeof r)) _exit(0); _exit(0); }      /* far too much */
void __sanitizer_cov_trace_pc(void) { if (on && ++work > cap) full(); }
void *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t), *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (on) work += 1 + n / 16; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (on) work += 1 + n / 16; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (on) work += 1 + n / 16; return __real_memset(d, c, n); }

#define STACK (1ul << 30)
static unsigned char *stk;
static size_t page;
static size_t used(void)                               /* bytes from the lowest page touched to the end */
{
  static unsigned char v[1 << 18]; size_t n = STACK / page;
  if (mincore(stk, STACK, v)) return 0;
  for (size_t i = 0; i < n; i++) if (v[i] & 1) return STACK - i * page;
  return 0;
}
static char *w[8];
static uint64_t rs;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 20; }
static unsigned char cw[16] __attribute__((aligned(16)));
static struct dvbcsa_bs_batch_s desc[1024];
static unsigned char *area;
static struct dvbcsa_key_s *K; static struct dvbcsa_bs_key_s *B;
static unsigned len, n, m;
static int enc;
static void (*fn)(void);
static void nothing(void) { }
static void one(void) { if (enc) dvbcsa_encrypt(K, area, len); else dvbcsa_decrypt(K, area, len); }
static void bat(void) { if (enc) dvbcsa_bs_encrypt(B, desc, m); else dvbcsa_bs_decrypt(B, desc, m); }
static void sets(void) { dvbcsa_key_set(cw, K); }
static void setb(void) { dvbcsa_bs_key_set(cw, B); }
static unsigned long touched;
static void *body(void *a) { on = 1; fn(); on = 0; touched = used(); return NULL; }
static size_t run(void (*f)(void))
{
  pthread_attr_t at; pthread_t th;
  stk = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (stk == MAP_FAILED) _exit(70);
  madvise(stk, STACK, MADV_NOHUGEPAGE);
  pthread_attr_init(&at);
  if (pthread_attr_setstack(&at, stk, STACK)) _exit(70);
  fn = f; work = 0;
  if (pthread_create(&th, &at, body, NULL)) _exit(70);
  pthread_join(th, NULL);
  munmap(stk, STACK);
  return touched;
}
static void child(int fd)
{
  alarm(100); resfd = fd; cap = 1ul << 24;
  area = mmap(NULL, (5ul << 30), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (area == MAP_FAILED) _exit(70);
  K = dvbcsa_key_alloc(); B = dvbcsa_bs_key_alloc(); if (!K || !B) _exit(70);
  void (*f)(void) = nothing;
  rs = strtoull(w[7] ? w[7] : "1", 0, 10) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
  if (!strcmp(w[0], "one"))
    {
      enc = *w[1] == 'e'; len = strtoul(w[2], 0, 10); area += atoi(w[3]); rs += strtoul(w[4], 0, 10) * 77777777777ull;
      if (rs & 1) for (unsigned i = 0; i < len; i += 1) area[i] = rnd(); else if (len < 1000000) memset(area, rs >> 8, len);
      cap += len * 1000ul; f = one;
    }
  else if (!strcmp(w[0], "bat") || !strcmp(w[0], "mix"))
    {
      int mix = *w[0] == 'm';
      enc = *w[1] == 'e'; n = atoi(w[2]); m = strtoul(w[3], 0, 10); if (!mix) len = strtoul(w[4], 0, 10); rs += strtoul(w[mix ? 4 : 5], 0, 10) * 77777777777ull;
      for (unsigned i = 0; i < n; i++)
        {
          desc[i].data = area + 512 * i; desc[i].len = mix ? rnd() % 2 ? rnd() % 185 : rnd() % 3 ? rnd() % 2000 : rnd() * 64u : len;
          for (int j = 0; j < 184; j++) desc[i].data[j] = rnd();
        }
      desc[n].data = NULL; desc[n].len = 0; f = bat;
    }
  else if (!strcmp(w[0], "set"))
    { for (int i = 0; i < 8; i++) { unsigned x; sscanf(w[2] + 2 * i, "%2x", &x); cw[i] = x; } f = *w[1] == 's' ? sets : setb; }
  static const unsigned char word[16] __attribute__((aligned(16))) = { 0x12, 0x34, 0x56, 0x9c, 0x78, 0x9a, 0xbc, 0xce };
  dvbcsa_key_set(word, K); dvbcsa_bs_key_set(word, B);
  if (!strcmp(w[0], "many"))
    {
      int c = atoi(w[3]), s = *w[1] == 's';
      len = 24; n = 1; m = 24; desc[0].data = area; desc[0].len = 24; desc[1].data = NULL; enc = *w[2] == 'e'; f = *w[2] == 's' ? s ? sets : setb : s ? one : bat;
      for (int i = 0; i < c; i++)
        {
          void *k = s ? (void *)dvbcsa_key_alloc() : (void *)dvbcsa_bs_key_alloc(); if (!k) _exit(70);
          memcpy(cw, &i, sizeof i); cw[7] = i * 3;
          if (s) { dvbcsa_key_set(cw, k); dvbcsa_encrypt(k, area, 24); if (i % 3 == 0) dvbcsa_key_free(k); }
          else { dvbcsa_bs_key_set(cw, k); dvbcsa_bs_encrypt(k, desc, 24); if (i % 3 == 0) dvbcsa_bs_key_free(k); }
        }
    }
  size_t base = run(nothing), t = run(f);
  unsigned long r[2] = { work, t > base ? t - base : 0 };
  if (write(fd, r, sizeof r) != sizeof r) _exit(70);
  _exit(0);
}
int main(int argc, char **argv)
{
  if (argc != 3) return 64;
  page = sysconf(_SC_PAGESIZE);
  FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
  if (!in || !out) return 66;
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  static char line[4096];
  while (fgets(line, sizeof line, in))
    {
      int k = 0; memset(w, 0, sizeof w);
      for (char *x = strtok(line, " \n"); x && k < 7; x = strtok(NULL, " \n")) w[k++] = x;
      if (!k) continue;
      if (!strcmp(w[0], "size")) { fprintf(out, "S %u\n", dvbcsa_bs_batch_size()); continue; }
      int p[2]; if (pipe(p)) return 70;
      fflush(out);
      pid_t pid = fork(); if (pid < 0) return 70;
      if (!pid) { close(p[0]); child(p[1]); }
      close(p[1]);
      unsigned long r[2]; ssize_t g = read(p[0], r, sizeof r); close(p[0]);
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
      if (g == sizeof r) fprintf(out, "C %lu %lu\n", r[0], r[1]);
      else if (WIFEXITED(st)) { fprintf(out, "E %d\n", WEXITSTATUS(st)); }
      else fprintf(out, "F signal %d\n", WTERMSIG(st));
    }
  fprintf(out, "END\n");
  return 0;
}
