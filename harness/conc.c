/* Concurrency executor: runs small multi-threaded programs over the public API of
 * libdvbcsa under schedules that are decided here, not by the system.  conc SCRIPT OUT
 *
 * The library is compiled with clang -fsanitize-coverage=trace-loads,trace-stores,
 * trace-pc: every memory access and basic block of it calls a hook below.  The threads
 * are real; exactly one holds the baton, and passes it on at the hook the schedule says.
 * Every execution is a fresh process.
 *
 *   prog                      start a program
 *   b i hex                   payload i
 *   call T CALL               a call of thread T (1..80; 0: before the threads, 99: after them)
 *                             CALL: size | alloc h s|b | set h cw | free h | enc h i |
 *                             dec h i | benc h m i... | bdec h m i...
 *   count                     run every thread alone; report the number of hooks and the
 *                             hooks at which threads touch the same memory
 *                               N t hooks end-of-call...        W t hook...
 *   s T:n,T:n,T:*             run under a schedule: T gets n hooks (* all it has left)
 *   f n                       run n times without schedule
 *   show                      print the distinct outcomes of the schedules since prog:
 *                               O count schedule, then outcome lines in order of the calls
 */
#include <dvbcsa/dvbcsa.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>

#define MAXT 80
#define MAXC 160
#define MAXB 512
#define MAXS 256
#define RES 65536
#define RECS (1 << 19)

struct call { char op[8]; int h, kind; unsigned m; unsigned char cw[8]; int n, ix[300]; };
static struct call prog[MAXT + 2][MAXC];             /* 0 before, 1..MAXT, MAXT+1 after */
static int ncall[MAXT + 2];
static int nthr;
static struct { unsigned char *init, *p; unsigned len; int used; } bufs[MAXB];
struct rec { uintptr_t a; unsigned ord; unsigned char w, n; };
static struct shared {
  char res[MAXT + 2][MAXC][4096 * 2];
  unsigned hooks[MAXT + 2], ends[MAXT + 2][MAXC], nrec[MAXT + 2];
  struct rec rec[MAXT + 2][RECS];
  int stalled;
} *S;
static void *K[256]; static int kind[256];

static __thread int me = 0;                          /* 0: not a scheduled thread */
static __thread uintptr_t stk_lo, stk_hi;
static int recording, freerun = 1;
static struct { int t; long n; } seg[MAXS];
static int nseg, curseg;
static long budget, limit;
static volatile unsigned long progress;
static int done[MAXT + 2];
static sem_t sem[MAXT + 2], alldone;

static int pick(void)                                 /* next thread with something left, sets budget */
{
  while (curseg < nseg && (done[seg[curseg].t] || !seg[curseg].n)) curseg++;
  if (curseg < nseg) { budget = seg[curseg].n; return seg[curseg].t; }
  budget = -1;
  for (int t = 1; t <= nthr; t++) if (!done[t]) return t;
  return 0;
}
static void hand(void)
{
  int t; curseg++; t = pick();
  if (t == me || !t) return;
  sem_post(&sem[t]);
  while (!freerun && sem_wait(&sem[me]) < 0) ;
}
static inline void hook(uintptr_t a, int n, int w)
{
  if (!me) return;
  progress++;
  unsigned o = ++S->hooks[me];
  if (recording && n && !(a >= stk_lo && a < stk_hi) && S->nrec[me] < RECS)
    { struct rec *r = &S->rec[me][S->nrec[me]++]; r->a = a; r->n = n; r->w = w; r->ord = o; }
  if (freerun) return;
  if (limit && o > limit) { freerun = 1; for (int t = 1; t <= nthr; t++) sem_post(&sem[t]); return; }   /* spinning */
  if (budget > 0 && --budget == 0) hand();
}
#define L(n) void __sanitizer_cov_load##n(void *p) { hook((uintptr_t)p, n, 0); } void __sanitizer_cov_store##n(void *p) { hook((uintptr_t)p, n, 1); }
L(1) L(2) L(4) L(8) L(16)
void __sanitizer_cov_trace_pc(void) { hook(0, 0, 0); }
static void range(const void *p, size_t n, int w)
{ uintptr_t a = (uintptr_t)p; if (!me) return; if (!n) { hook(0, 0, 0); return; }
  while (n) { size_t k = n > 128 ? 128 : n; hook(a, k, w); a += k; n -= k; } }
void *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t), *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { range(s, n, 0); range(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { range(s, n, 0); range(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { range(d, n, 1); return __real_memset(d, c, n); }

static char *hexput(char *o, const unsigned char *p, size_t n)
{
  if (!n) *o++ = '-';
  for (size_t i = 0; i < n; i++) { *o++ = "0123456789abcdef"[p[i] >> 4]; *o++ = "0123456789abcdef"[p[i] & 15]; }
  *o = 0; return o;
}
static struct dvbcsa_bs_batch_s desc[MAXT + 2][300];
static void docall(int t, int i)
{
  struct call *c = &prog[t][i]; char *o = S->res[t][i];
  if (!strcmp(c->op, "size")) sprintf(o, "S %u", dvbcsa_bs_batch_size());
  else if (!strcmp(c->op, "alloc"))
    { kind[c->h] = c->kind; K[c->h] = c->kind == 's' ? (void *)dvbcsa_key_alloc() : (void *)dvbcsa_bs_key_alloc(); sprintf(o, "A %d %s", c->h, K[c->h] ? "ok" : "null"); }
  else if (!strcmp(c->op, "set"))
    { if (kind[c->h] == 's') dvbcsa_key_set(c->cw, K[c->h]); else dvbcsa_bs_key_set(c->cw, K[c->h]); strcpy(o, "K"); }
  else if (!strcmp(c->op, "free"))
    { if (kind[c->h] == 's') dvbcsa_key_free(K[c->h]); else dvbcsa_bs_key_free(K[c->h]); strcpy(o, "X"); }
  else if (c->op[0] == 'b')
    {
      for (int j = 0; j < c->n; j++) { desc[t][j].data = bufs[c->ix[j]].p; desc[t][j].len = bufs[c->ix[j]].len; }
      desc[t][c->n].data = NULL; desc[t][c->n].len = 0;
      if (c->op[1] == 'e') dvbcsa_bs_encrypt(K[c->h], desc[t], c->m); else dvbcsa_bs_decrypt(K[c->h], desc[t], c->m);
      int m = me; me = 0;
      o += sprintf(o, "D");
      for (int j = 0; j < c->n; j++) { if (o - S->res[t][i] > 7000) { fprintf(stderr, "E result too long\n"); _exit(70); } *o++ = ' '; o = hexput(o, bufs[c->ix[j]].p, bufs[c->ix[j]].len); }
      me = m;
    }
  else
    {
      if (c->op[0] == 'e') dvbcsa_encrypt(K[c->h], bufs[c->ix[0]].p, bufs[c->ix[0]].len); else dvbcsa_decrypt(K[c->h], bufs[c->ix[0]].p, bufs[c->ix[0]].len);
      int m = me; me = 0;
      o += sprintf(o, "D "); hexput(o, bufs[c->ix[0]].p, bufs[c->ix[0]].len);
      me = m;
    }
  S->ends[t][i] = S->hooks[t];
}
static void *body(void *arg)
{
  int t = (int)(intptr_t)arg;
  pthread_attr_t at; void *sp; size_t sn;
  pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &sn); pthread_attr_destroy(&at);
  stk_lo = (uintptr_t)sp; stk_hi = stk_lo + sn;
  while (sem_wait(&sem[t]) < 0) ;
  me = t;
  for (int i = 0; i < ncall[t]; i++) docall(t, i);
  me = 0;
  done[t] = 1; progress++;
  if (!freerun) { int u = pick(); if (u) sem_post(&sem[u]); }
  sem_post(&alldone);
  return NULL;
}
/* one execution, in this (child) process */
static void execute(int only)
{
  alarm(20);
  for (int i = 0; i < ncall[0]; i++) docall(0, i);
  pthread_t th[MAXT + 2]; int n = 0;
  for (int t = 1; t <= nthr; t++)
    { sem_init(&sem[t], 0, 0); S->hooks[t] = S->nrec[t] = 0; if (only && t != only) done[t] = 1; }
  sem_init(&alldone, 0, 0);
  for (int t = 1; t <= nthr; t++) if (!done[t]) { if (pthread_create(&th[t], NULL, body, (void *)(intptr_t)t)) _exit(71); n++; }
  if (freerun) for (int t = 1; t <= nthr; t++) sem_post(&sem[t]);
  else { curseg = 0; int t = pick(); sem_post(&sem[t]); }
  unsigned long seen = progress; 
  while (n)
    {
      struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 200000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
      if (!sem_timedwait(&alldone, &ts)) { n--; continue; }
      if (errno == ETIMEDOUT && progress == seen && !freerun)
        { S->stalled++; freerun = 1; for (int t = 1; t <= nthr; t++) sem_post(&sem[t]); }   /* the holder waits for another thread */
      seen = progress;
    }
  for (int t = 1; t <= nthr; t++) if (!only || t == only) pthread_join(th[t], NULL);
  if (!only) for (int i = 0; i < ncall[MAXT + 1]; i++) docall(MAXT + 1, i);
}
static FILE *out;
static int spawn(int only)
{
  for (int i = 0; i < MAXT + 2; i++) for (int c = 0; c < ncall[i]; c++) memset(S->res[i][c], 0, sizeof S->res[i][c]);
  fflush(out);
  pid_t p = fork();
  if (p < 0) { fprintf(out, "E fork\n"); exit(70); }
  if (!p)
    {
      for (int i = 0; i < MAXB; i++) if (bufs[i].used) memcpy(bufs[i].p, bufs[i].init, bufs[i].len);
      execute(only); _exit(0);
    }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  return st;
}
/* distinct outcomes */
static struct oc { char *text, *sched; long n; } *ocs; static int nocs;
static unsigned long total;
static void outcome(int st, const char *sched)
{
  static char *t; if (!t) t = malloc(1 << 20); char *o = t;
  if (st) o += sprintf(o, "F %s %d\n", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  else
    for (int i = 0; i < MAXT + 2; i++)
      for (int c = 0; c < ncall[i]; c++) o += sprintf(o, "%s\n", S->res[i][c]);
  *o = 0; total++;
  for (int i = 0; i < nocs; i++) if (!strcmp(ocs[i].text, t)) { ocs[i].n++; return; }
  if (nocs >= 200) return;
  ocs = realloc(ocs, sizeof *ocs * (nocs + 1)); ocs[nocs].text = strdup(t); ocs[nocs].sched = strdup(sched); ocs[nocs++].n = 1;
}
static int unhex(const char *s, unsigned char *d) { int n = 0; if (*s == '-') return 0; for (; s[0] && s[1] && s[0] != '\n'; s += 2) { unsigned x; sscanf(s, "%2x", &x); d[n++] = x; } return n; }

struct gr { uintptr_t g; unsigned ord; unsigned char t, w; };
static int cmp(const void *a, const void *b)
{ const struct gr *x = a, *y = b; return x->g < y->g ? -1 : x->g > y->g ? 1 : x->t != y->t ? x->t - y->t : x->ord < y->ord ? -1 : x->ord > y->ord; }
static int cmpu(const void *a, const void *b) { unsigned x = *(unsigned *)a, y = *(unsigned *)b; return x < y ? -1 : x > y; }
static void count(void)
{
  freerun = 1; recording = 1; limit = 0;
  for (int t = 1; t <= nthr; t++)
    {
      for (int i = 0; i < MAXT + 2; i++) done[i] = 0;
      int st = spawn(t);
      if (st) { fprintf(out, "F alone %d %d\n", t, st); outcome(st, "alone"); recording = 0; return; }
      fprintf(out, "N %d %u", t, S->hooks[t]);
      for (int c = 0; c < ncall[t]; c++) fprintf(out, " %u", S->ends[t][c]);
      fputc('\n', out);
    }
  recording = 0;
  size_t n = 0, k = 0;
  for (int t = 1; t <= nthr; t++) for (unsigned i = 0; i < S->nrec[t]; i++) n += S->rec[t][i].n / 8 + 2;
  struct gr *g = malloc(n * sizeof *g + 16);
  for (int t = 1; t <= nthr; t++)
    for (unsigned i = 0; i < S->nrec[t]; i++)
      { struct rec *r = &S->rec[t][i]; for (uintptr_t a = r->a / 8; a <= (r->a + r->n - 1) / 8; a++) { g[k].g = a; g[k].ord = r->ord; g[k].t = t; g[k++].w = r->w; } }
  qsort(g, k, sizeof *g, cmp);
  enum { MP = 20000 }; static unsigned pts[MAXT + 2][MP]; static int np[MAXT + 2]; memset(np, 0, sizeof np);
  for (size_t i = 0; i < k; )
    {
      size_t j = i; unsigned many = 0, wr = 0;
      while (j < k && g[j].g == g[i].g) { many |= g[j].t != g[i].t; if (g[j].w) wr = 1; j++; }
      if (wr && many)
        for (size_t q = i; q < j; q++) if (np[g[q].t] < MP) pts[g[q].t][np[g[q].t]++] = g[q].ord;
      i = j;
    }
  free(g);
  for (int t = 1; t <= nthr; t++)
    {
      qsort(pts[t], np[t], sizeof(unsigned), cmpu);
      fprintf(out, "W %d", t); unsigned last = 0; int pr = 0;
      for (int i = 0; i < np[t] && pr < 3000; i++) if (pts[t][i] != last) { fprintf(out, " %u", last = pts[t][i]); pr++; }
      fputc('\n', out);
    }
}
int main(int argc, char **argv)
{
  if (argc != 3) return 64;
  FILE *in = fopen(argv[1], "r"); out = fopen(argv[2], "w");
  if (!in || !out) return 66;
  S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) return 70;
  static char line[1 << 18]; unsigned hk[MAXT + 2] = { 0 };
  int stalls = 0;
  while (fgets(line, sizeof line, in))
    {
      char *w[320]; int n = 0; static char copy[1 << 18]; strcpy(copy, line); copy[strcspn(copy, "\n")] = 0;
      for (char *x = strtok(line, " \n"); x && n < 320; x = strtok(NULL, " \n")) w[n++] = x;
      if (!n || *w[0] == '#') continue;
      if (!strcmp(w[0], "prog"))
        {
          memset(ncall, 0, sizeof ncall); nthr = 0; for (int i = 0; i < MAXB; i++) bufs[i].used = 0;
          for (int i = 0; i < nocs; i++) { free(ocs[i].text); free(ocs[i].sched); } nocs = 0; total = 0; stalls = 0; S->stalled = 0;
          memset(hk, 0, sizeof hk);
          fprintf(out, "P\n");
        }
      else if (!strcmp(w[0], "b"))
        { int i = atoi(w[1]); if (!bufs[i].p) { bufs[i].p = malloc(4096); bufs[i].init = malloc(4096); } if (strlen(w[2]) > 8000) { fprintf(out, "E long\n"); return 70; } bufs[i].len = unhex(w[2], bufs[i].init); bufs[i].used = 1; }
      else if (!strcmp(w[0], "call"))
        {
          int t = atoi(w[1]); if (t == 99) t = MAXT + 1; else if (t > nthr) nthr = t;
          if (ncall[t] >= MAXC) { fprintf(out, "E calls\n"); return 70; }
          struct call *c = &prog[t][ncall[t]++]; memset(c, 0, sizeof *c); strcpy(c->op, w[2]);
          if (n > 3) c->h = atoi(w[3]);
          if (!strcmp(w[2], "alloc")) c->kind = w[4][0];
          else if (!strcmp(w[2], "set")) unhex(w[4], c->cw);
          else if (w[2][0] == 'b') { c->m = strtoul(w[4], 0, 10); for (int i = 5; i < n; i++) c->ix[c->n++] = atoi(w[i]); }
          else if (n > 4) c->ix[0] = atoi(w[4]);
        }
      else if (!strcmp(w[0], "count")) { count(); for (int t = 1; t <= nthr; t++) hk[t] = S->hooks[t]; }
      else if (!strcmp(w[0], "s"))
        {
          if (stalls > 15) continue;                  /* enough of waiting for lock holders */
          nseg = 0;
          for (char *p = w[1]; p && *p && nseg < MAXS; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL)
            { seg[nseg].t = atoi(p); char *q = strchr(p, ':') + 1; seg[nseg++].n = *q == '*' ? -1 : atol(q); }
          for (int i = 0; i < MAXT + 2; i++) done[i] = 0;
          freerun = 0; limit = 0; for (int t = 1; t <= nthr; t++) if (hk[t] > limit) limit = hk[t];
          limit = limit ? limit * 50 + 100000 : 0;
          int s0 = S->stalled; int st = spawn(0); if (S->stalled > s0) stalls++;
          outcome(st, copy);
        }
      else if (!strcmp(w[0], "f"))
        { for (int i = 0; i < atoi(w[1]); i++) { freerun = 1; limit = 0; for (int j = 0; j < MAXT + 2; j++) done[j] = 0; outcome(spawn(0), "free"); } }
      else if (!strcmp(w[0], "show"))
        {
          fprintf(out, "T %lu %d\n", total, stalls);
          for (int i = 0; i < nocs; i++) fprintf(out, "O %ld %s\n%s", ocs[i].n, ocs[i].sched, ocs[i].text);
        }
      else { fprintf(out, "E %s\n", w[0]); return 70; }
    }
  fprintf(out, "END\n"); fclose(out);
  return 0;
}
