/* A large number of random cases against one build of the library.
     bulk MODE SEED FIRST LAST SECONDS [trace]
   Case i is a function of (SEED, i).  The cases FIRST..LAST-1 are tried until the time is
   up; prints "OK n" or "BAD i what".  MODE:
     enc dec    single packets against spec/CSA.tla (translated: glue.cpp)
     cw         both interfaces against spec/CSA.tla, a new control word in every case
     rt         one operation undoes the other, through all interfaces
     batch      packets of a batch against the single packet interface
     indep      packets of a batch in another position and company
     limit      packets over the limit against the cut off packet
     short      short packets, packets with other residues
     frame      memory around the packets
     word ctx   histories of one and of several contexts against fresh contexts
     place      the same packets elsewhere in memory
     term       what stands behind the terminator, batch sizes
     err        damaged packets (CsaRel!DamageLocal)
     limits     illegal limits
     wear       contexts used, set and allocated very often, and very many at once
     lenc ldec lrt lshort lerr   every length of a single payload from 601 on
     threads    many threads, one at a time
     long       contexts used, set and allocated millions of times (until time is up)
     aliasw aliass aliasp aliasb   words, packets that agree in a checksum or hash
     conf       prints a digest of the outcomes of every case, for comparison
   The library runs in a child process, so that its death is an outcome. */
#include <pthread.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dvbcsa/dvbcsa.h>

int spec_scramble(int enc, const unsigned char *cw, const unsigned char *in, unsigned char *out, int n);
int rel_damage(const unsigned char *s1, const unsigned char *p1, const unsigned char *s2, const unsigned char *p2, int n);
#ifdef NO_SPEC
int spec_scramble(int e, const unsigned char *c, const unsigned char *i, unsigned char *o, int n) { abort(); }
int rel_damage(const unsigned char *a, const unsigned char *b, const unsigned char *c, const unsigned char *d, int n) { abort(); }
#endif

typedef unsigned char u8;
#define MAXP 2048                        /* longest packet */
#define MAXN 512
static uint64_t rs;
#ifdef FUZZ
/* the choices come from the input as long as it lasts */
static const u8 *fz; static size_t fn;
static uint64_t prng(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static int take(u8 *p, size_t k) { if (fn < k) { fn = 0; return 0; } memcpy(p, fz, k); fz += k; fn -= k; return 1; }
static uint64_t rnd(void) { uint32_t v; return take((u8 *)&v, 4) ? (uint64_t)v << 24 : prng(); }
static unsigned R(unsigned n) { u8 a; uint16_t b; if (n < 257) return take(&a, 1) ? a % n : prng() % n; return take((u8 *)&b, 2) ? b % n : prng() % n; }
static int one(unsigned n) { return R(n) == 0; }
static void fill(u8 *p, int n) { int i; if (n > 0 && !take(p, n)) for (i = 0; i < n; i++) p[i] = prng() >> 24; }
#else
static uint64_t rnd(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned R(unsigned n) { return (rnd() >> 16) % n; }                /* 0..n-1 */
static int one(unsigned n) { return R(n) == 0; }
static void fill(u8 *p, int n) { int i; for (i = 0; i < n; i++) p[i] = rnd() >> 24; }
#endif

static volatile struct { long at; char msg[400]; long done; } *shm;
static char *out_digest;
static int tracing;
static void bad(const char *f, long a, long b, long c, long d)
{
  if (!shm->msg[0]) { char t[400]; snprintf(t, sizeof t, f, a, b, c, d); strcpy((char *)shm->msg, t); }
}

/* ---- words, lengths, payloads */
static void word(u8 *w)
{
  /* the cycles of the key permutation applied four times: words made of them have schedules that repeat */
  static const u8 four[4][8] = { { 0xd8, 0x07, 0x04, 0x25, 0x04, 0x10, 0x14, 0x08 }, { 0x26, 0x08, 0x40, 0x80, 0x91, 0xe1, 0x08, 0x21 }, { 0x01, 0xb0, 0xb0, 0x0a, 0x40, 0x0c, 0xa2, 0x40 }, { 0x00, 0x40, 0x0b, 0x50, 0x2a, 0x02, 0x41, 0x96 } };
  int i; u8 v;
  fill(w, 8);
  switch (R(22))
    {
    case 6: for (i = 0; i < 8; i++) w[i] = w[i] % 16 * 17; break;       /* nibbles swapped, the same */
    case 7: for (i = 0; i < 4; i++) w[7 - i] = w[i]; break;
    case 8: for (i = 0; i < 4; i++) w[4 + i] = ~w[i]; break;
    case 9: v = w[1]; for (i = 1; i < 8; i++) w[i] = w[i - 1] + v; break;
    case 10: v = w[0]; memset(w, 0, 8); for (i = 0; i < 32; i++) if (v >> i / 8 & 1) w[i % 8] |= four[i / 8][i % 8]; break;
    case 11: memcpy(w + 2, w, 2); memcpy(w + 4, w, 4); break;
    case 0: w[3] = w[0] + w[1] + w[2]; w[7] = w[4] + w[5] + w[6]; break;
    case 1: memset(w, one(2) ? 0 : 255, 8); w[R(8)] = rnd() >> 24; break;
    case 2: memcpy(w + 4, w, 4); break;
    case 3: memset(w, v = w[0], 8); break;
    case 4: for (i = 0; i < 8; i++) if (one(2)) w[i] = one(2) ? 0 : 255; break;
    case 5: w[3] = w[0] + w[1] + w[2]; break;
    }
}
static void near(u8 *w)
{
  int i;
  switch (R(8))
    {
    case 0: case 1: i = R(64); w[i / 8] ^= 1 << (i % 8); break;
    case 2: w[R(8)] ^= 1 + R(255); break;
    case 3: fill(w + 4, 4); break;
    case 4: fill(w, 4); break;
    case 5: i = R(7) + 1; { u8 t[8]; memcpy(t, w, 8); int j; for (j = 0; j < 8; j++) w[j] = t[(j + i) % 8]; } break;
    case 6: i = R(8); w[i] ^= 0x55; w[(i + 1 + R(7)) % 8] ^= 0x55; break;
    case 7: i = R(8); { int j = R(8); u8 t = w[i]; w[i] = w[j]; w[j] = t; } break;
    }
}
static int plen(int top)
{
  static const int s[] = { 0, 1, 7, 8, 9, 15, 16, 17, 23, 24 };
  int n;
  switch (R(12))
    {
    case 0: case 1: n = 8 * R(top / 8 + 1); break;
    case 2: n = s[R(10)]; break;
    case 3: n = top - s[R(5)]; break;
    case 4: n = 8 * R(top / 8 + 1) + 7; break;
    case 5: n = 8 * R(top / 8 + 1) + 1; break;
    case 6: n = top; break;
    default: n = R(top + 1);
    }
  return n < 0 ? 0 : n > top ? top : n;
}
static void payload(u8 *p, int n)
{
  int i, j;
  if (n <= 0) return;
  fill(p, n);
  switch (R(20))
    {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 255, n); break;
    case 2: memset(p, p[0], n); break;
    case 3: for (i = 8; i < n; i++) p[i] = p[i - 8]; break;
    case 4: memset(p, 0, n < 8 ? n : 8); break;
    case 5: memset(p, 0, n); p[R(n)] = 1 << R(8); break;
    case 6: j = R(n); memset(p + j, 0, n - j); break;
    case 7: for (i = 0; i < n; i++) p[i] = i + p[0]; break;
    case 9: if (n > 3) { p[0] = one(2) ? 0 : 0x47; p[1] = 0; p[2] = 1; if (one(2)) p[3] = 0xe0 - (R(2) << 5); } break;
    case 8: for (i = 0; i < n; i++) if (one(2)) p[i] = one(2) ? 0 : 255; break;
    }
}

/* ---- packets */
struct pk { int n; u8 d[MAXP]; };
static struct pk P[MAXN], Q[MAXN], O1[MAXN], O2[MAXN], T;
static unsigned BS, REAL;
/* lengths and contents of a batch; sometimes the packets resemble each other */
static int packets(struct pk *p, int top, int total)
{
  int i, k = R(10), L = plen(top), n, run = 1 << R(8);
  static struct pk base[4];
  switch (R(8)) { case 0: n = BS; break; case 1: n = BS - R(4); break; case 2: n = R(6); break; case 3: n = 8 * R(BS / 8 + 1) + R(2); break; default: n = R(BS + 1); }
  if (n < 0) n = 0;
  if (n > (int)BS) n = BS;
  if (total >= 0) n = total;
  for (i = 0; i < n; i++)
    {
      p[i].n = k < 4 ? plen(top) : k == 4 ? top : k == 5 ? L : k == 6 ? (one(8) ? plen(top) : L) : k == 7 ? (i * top) / (n > 1 ? n - 1 : 1) : k == 8 ? ((n - 1 - i) * top) / (n > 1 ? n - 1 : 1) : (one(2) ? 0 : top);
      payload(p[i].d, p[i].n);
    }
  if (one(3))
    {
      for (i = 0; i < 4; i++) payload(base[i].d, MAXP);
      k = R(6);
      for (i = 0; i < n; i++)
        switch (k)
          {
          case 0: memcpy(p[i].d, base[0].d, p[i].n); break;
          case 1: memcpy(p[i].d, base[(i / run) % 4].d, p[i].n); break;
          case 2: memcpy(p[i].d, base[(i % run) % 4].d, p[i].n); break;
          case 3: memcpy(p[i].d, base[0].d, p[i].n < 8 ? p[i].n : 8); break;
          case 4: if (!one(5)) memcpy(p[i].d, base[0].d, p[i].n); break;
          case 5: memcpy(p[i].d, base[i / run % 2].d, p[i].n); if (p[i].n && one(3)) p[i].d[R(p[i].n)] ^= 1 << R(8); break;
          }
    }
  return n;
}
static int longest(struct pk *p, int n) { int i, m = 0; for (i = 0; i < n; i++) if (p[i].n > m) m = p[i].n; return m; }
static unsigned limit_for(int l) { unsigned m = (l + 7) / 8 * 8; if (m > 184) m = 184; switch (R(4)) { case 0: return 184; case 1: return m; case 2: return m + 8 * R((184 - m) / 8 + 1); default: return one(2) ? 184 : m; } }

/* ---- running */
static struct dvbcsa_key_s *sk[64];
static struct dvbcsa_bs_key_s *bk[64];
static void skey(int i, const u8 *w) { if (!sk[i]) sk[i] = dvbcsa_key_alloc(); if (!sk[i]) _exit(70); dvbcsa_key_set(w, sk[i]); }
static void bkey(int i, const u8 *w) { if (!bk[i]) bk[i] = dvbcsa_bs_key_alloc(); if (!bk[i]) _exit(70); dvbcsa_bs_key_set(w, bk[i]); }
static void sfree(int i) { if (sk[i]) dvbcsa_key_free(sk[i]); sk[i] = 0; }
static void bfree(int i) { if (bk[i]) dvbcsa_bs_key_free(bk[i]); bk[i] = 0; }

static u8 *arena; static size_t arena_n = (size_t)MAXN * (MAXP + 600) + 65536;
static u8 *shadow;
static void run_single(int enc, int k, const struct pk *in, struct pk *out, int off)
{
  u8 *a = arena + off;
  memcpy(a, in->d, in->n);
  if (enc) dvbcsa_encrypt(sk[k], a, in->n); else dvbcsa_decrypt(sk[k], a, in->n);
  out->n = in->n; memcpy(out->d, a, in->n);
}
/* place: 0 spread by 512, 1 adjacent, 2 random gaps, 3 adjacent in reverse; after: entries behind the terminator */
static struct dvbcsa_bs_batch_s desc[2 * MAXN + 64];
static void run_batch(int enc, int k, unsigned m, const struct pk *in, struct pk *out, int n, int place, int after, int check)
{
  static size_t at[MAXN];
  struct dvbcsa_bs_batch_s *b = desc + R(3);
  size_t o = R(64); int i, j;
  for (j = 0; j < n; j++)
    {
      i = place == 3 ? n - 1 - j : j;
      at[i] = o; o += in[i].n;
      if (place == 0) o = (o + 511) / 512 * 512 + R(64);
      else if (place == 2) o += one(2) ? 0 : R(80);
    }
  if (check) { for (size_t q = 0; q < o + 256; q++) arena[q] = 0xA5 ^ (q * 7); }
  for (i = 0; i < n; i++) { memcpy(arena + at[i], in[i].d, in[i].n); b[i].data = arena + at[i]; b[i].len = in[i].n; }
  if (check) memcpy(shadow, arena, o + 256);
  b[n].data = 0; b[n].len = one(2) ? 0 : rnd();
  for (i = 1; i <= after; i++) { b[n + i].data = arena + o + R(64); b[n + i].len = R(150); }
  if (enc) dvbcsa_bs_encrypt(bk[k], b, m); else dvbcsa_bs_decrypt(bk[k], b, m);
  for (i = 0; i < n; i++) { out[i].n = in[i].n; memcpy(out[i].d, arena + at[i], in[i].n); }
  if (check)
    {
      for (i = 0; i < n; i++) { size_t c = in[i].n < (int)m ? in[i].n : m; memcpy(shadow + at[i], arena + at[i], c); }
      for (size_t q = 0; q < o + 256; q++) if (arena[q] != shadow[q]) { bad("a batch of %ld with limit %ld changed a byte at offset %ld outside the packets (%ld)", n, m, q, o); break; }
      for (i = 0; i < n; i++) if (b[i].data != arena + at[i] || b[i].len != (unsigned)in[i].n) { bad("descriptor %ld of %ld was changed", i, n, 0, 0); break; }
    }
}
/* memory in distant parts of the address space */
static struct { u8 *p; size_t n; } far_[24]; static int nfar; static u8 *giant;
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
static void map_far(void)
{
  /* the middle of each is a multiple of a power of two; some agree in their low 32 bits */
  static const unsigned long long at[] = { 1ull << 20, 1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 5ull << 32, 1ull << 36, 1ull << 40, 3ull << 40, 1ull << 44, 1ull << 46, 0x7ff000000000ull,
    0x10000000, 0x110000000ull, 0x710000000ull, 0xffff10000000ull & 0x7fff10000000ull };
  static int did; unsigned i;
  if (did) return;
  did = 1;
  for (i = 0; i < sizeof at / sizeof *at; i++)
    {
      unsigned long long a = at[i] - 65536;
      if ((unsigned long long)(uintptr_t)a != a) continue;
      u8 *p = mmap((void *)(uintptr_t)a, 131072, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
      if (p == MAP_FAILED) continue;
      if (p != (u8 *)(uintptr_t)a) { munmap(p, 131072); continue; }
      far_[nfar].p = p; far_[nfar++].n = 131072;
    }
  while (nfar < 4) { u8 *p = mmap(0, 131072, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) _exit(71); far_[nfar].p = p; far_[nfar++].n = 131072; }
  if (sizeof(void *) == 8)
    {
      giant = mmap(0, (1ull << 32) + 262144, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (giant == MAP_FAILED) giant = 0;
    }
}
/* a batch whose packets lie all over the address space; the same for descriptors and control word */
static void run_far(int enc, int k, unsigned m, const struct pk *in, struct pk *out, int n)
{
  static u8 *at[MAXN]; static size_t used[24];
  int i, r, last = 0; struct dvbcsa_bs_batch_s *b;
  map_far();
  for (r = 0; r < nfar; r++) used[r] = one(3) ? R(64) : one(3) ? 65536 : 65536 - R(400);       /* often across the middle, or from it */
  for (i = 0; i < n; i++)
    {
      r = one(4) ? last : (int)R(nfar); last = r;
      while (used[r] + in[i].n + 100 > 131072 - 16384) r = (r + 1) % nfar;
      at[i] = far_[r].p + used[r]; used[r] += in[i].n + (one(2) ? 0 : R(90));
      memcpy(at[i], in[i].d, in[i].n);
    }
  b = (void *)(far_[R(nfar)].p + 131072 - sizeof *b * (n + 1));
  for (i = 0; i < n; i++) { b[i].data = at[i]; b[i].len = in[i].n; }
  b[n].data = 0; b[n].len = 0;
  if (enc) dvbcsa_bs_encrypt(bk[k], b, m); else dvbcsa_bs_decrypt(bk[k], b, m);
  for (i = 0; i < n; i++) { out[i].n = in[i].n; memcpy(out[i].d, at[i], in[i].n); }
}
static void single_far(int enc, int k, const struct pk *in, struct pk *out)
{
  map_far();
  u8 *p = far_[R(nfar)].p + 65536; p += one(4) ? 0 : one(2) ? (int)R(2000) : -(int)R(in->n + 1);
  memcpy(p, in->d, in->n);
  if (enc) dvbcsa_encrypt(sk[k], p, in->n); else dvbcsa_decrypt(sk[k], p, in->n);
  out->n = in->n; memcpy(out->d, p, in->n);
}
static int same(const struct pk *a, const struct pk *b) { return a->n == b->n && !memcmp(a->d, b->d, a->n); }
static int pl(void) { return R(4); }

/* Packets whose blocks are peculiar not outside but between the two ciphers (where they are chained):
   the payload X is masked with the keystream that its first block makes, and for
   encryption undone.  This only chooses inputs; nothing depends on the library doing it right. */
static void inner(const u8 *w, int enc, struct pk *p, int n, int always)
{
  static u8 x[4][MAXP], z[MAXP]; struct dvbcsa_key_s *k; int i, j, q, nb, share;
  if (!always && !one(12)) return;
  if (!(k = dvbcsa_key_alloc())) return;
  dvbcsa_key_set(w, k); share = R(3);
  for (i = 0; i < 4; i++) payload(x[i], 256);
  if (one(3)) for (i = 0; i < 4; i++) for (j = 8 * R(4); j < 256; j += 8 * (1 + R(8))) memcpy(x[i] + j, one(3) ? w : x[i], 8);
  for (q = 0; q < n; q++)
    {
      u8 *d = p[q].d, *s; nb = p[q].n / 8; if (nb > 32) nb = 32;
      if (nb < 1 || (q > 7 && !share && !always) || (!always && one(4))) continue;
      s = x[share ? R(4) : q & 3];
      if (!share) payload(s, 8 * nb);
      if (p[q].n / 8 > 32) continue;
      memset(z, 0, 8 * nb); memcpy(z, s, 8); dvbcsa_decrypt(k, z, 8 * nb);
      for (i = nb - 1; i >= 0; i--)                  /* z: the keystream */
        { if (i < nb - 1) for (j = 0; j < 8; j++) z[8 * i + j] ^= z[8 * i + 8 + j]; dvbcsa_encrypt(k, z + 8 * i, 8); }
      memcpy(d, s, 8); for (i = 8; i < 8 * nb; i++) d[i] = s[i] ^ z[i];
      if (enc) dvbcsa_decrypt(k, d, p[q].n);
    }
  dvbcsa_key_free(k);
}

/* ---- the modes */
static void m_spec(int enc)
{
  u8 w[8], e[MAXP]; int j, N = 1 + R(12);
  word(w); skey(0, w);
  for (j = 0; j < N; j++)
    {
      P[0].n = one(40) ? R(700) : plen(one(4) ? 184 : one(2) ? 72 : 32); payload(P[0].d, P[0].n);
      if (one(6)) { u8 v[8]; memcpy(v, w, 8); memcpy(P[0].d, v, P[0].n < 8 ? P[0].n : 8); }
      inner(w, enc, P, 1, 0);
      run_single(enc, 0, P, O1, R(64));
      spec_scramble(enc, w, P[0].d, e, P[0].n);
      if (memcmp(e, O1[0].d, P[0].n)) bad("outcome for a packet of %ld bytes is not the specified one (packet %ld)", P[0].n, j, 0, 0);
    }
  if (one(8)) sfree(0);
}
static void m_cw(void)
{
  u8 w[8], e[MAXP]; int i, j, n, enc, reps = 1 + R(3);
  word(w);
  for (j = 0; j < reps; j++)
    {
      enc = R(2); skey(0, w); bkey(0, w);
      n = packets(P, one(4) ? 40 : 16, 1 + R(BS)); inner(w, enc, P, n, 0); run_batch(enc, 0, limit_for(longest(P, n)), P, O1, n, pl(), 0, 0);
      for (i = 0; i < 3; i++)
        {
          int q = R(n);
          spec_scramble(enc, w, P[q].d, e, P[q].n);
          if (memcmp(e, O1[q].d, P[q].n)) bad("batch outcome for the control word is not the specified one (length %ld, packet %ld of %ld)", P[q].n, q, n, 0);
          run_single(enc, 0, P + q, O2, R(64));
          if (memcmp(e, O2[0].d, P[q].n)) bad("single outcome for the control word is not the specified one (length %ld)", P[q].n, 0, 0, 0);
        }
      near(w);
    }
}
static void m_rt(void)
{
  u8 w[8]; int i, n, enc = R(2), how = R(5); unsigned m;
  word(w); skey(0, w); bkey(0, w);
  if (how == 4)
    {
      for (i = 0; i < 20; i++)
        {
          P[0].n = one(3) ? R(MAXP) : plen(184); payload(P[0].d, P[0].n); inner(w, enc, P, 1, 0);
          run_single(enc, 0, P, O1, R(64)); run_single(!enc, 0, O1, O2, R(64));
          if (!same(P, O2)) bad("single packet of %ld bytes does not come back (%ld)", P[0].n, enc, 0, 0);
        }
      return;
    }
  n = packets(P, one(3) ? 8 * (1 + R(23)) : 184, -1); m = limit_for(longest(P, n)); inner(w, enc, P, n, 0);
  if (how & 1) run_batch(enc, 0, m, P, O1, n, pl(), 0, 0); else for (i = 0; i < n; i++) run_single(enc, 0, P + i, O1 + i, R(64));
  if (one(2)) { bfree(1); bkey(1, w); } else bkey(1, w);
  if (how & 2 || !(how & 1)) run_batch(!enc, 1, one(2) ? m : limit_for(longest(P, n)), O1, O2, n, pl(), 0, 0); else for (i = 0; i < n; i++) run_single(!enc, 0, O1 + i, O2 + i, R(64));
  for (i = 0; i < n; i++) if (!same(P + i, O2 + i)) { bad("packet %ld of %ld (%ld bytes) does not come back (limit %ld)", i, n, P[i].n, m); break; }
}
static void m_batch(void)
{
  u8 w[8]; int i, n, enc = R(2); unsigned m;
  word(w); skey(0, w); bkey(0, w);
  n = packets(P, one(3) ? 8 * (1 + R(23)) : 184, -1); m = limit_for(longest(P, n)); inner(w, enc, P, n, 0);
  run_batch(enc, 0, m, P, O1, n, pl(), 0, 0);
  for (i = 0; i < n; i++)
    {
      run_single(enc, 0, P + i, O2, R(64));
      if (!same(O1 + i, O2)) { bad("packet %ld of %ld (%ld bytes, limit %ld): batch and single packet differ", i, n, P[i].n, m); break; }
    }
}
static void m_indep(void)
{
  u8 w[8]; int i, j, k, n, n2, enc = R(2); unsigned m; static int where[MAXN]; static char used[MAXN];
  word(w); bkey(0, w);
  n = packets(P, one(3) ? 8 * (1 + R(23)) : 184, -1); m = one(3) ? 8 * R(24) : limit_for(longest(P, n)); inner(w, enc, P, n, 0);
  run_batch(enc, 0, m, P, O1, n, pl(), 0, 0);
  for (k = 0; k < 2; k++)
    {
      n2 = packets(Q, 184, one(2) ? (int)BS : 1 + R(BS)); memset(used, 0, sizeof used);
      int how = R(4), rot = R(BS);
      for (i = 0; i < n; i++)
        {
          where[i] = -1;
          if (how == 0 ? one(3) : how == 3 ? one(n2) : 1)
            {
              j = how == 1 ? (i + rot) % n2 : how == 2 ? n2 - 1 - i : (int)R(n2);
              if (j >= 0 && j < n2 && !used[j]) { used[j] = 1; where[i] = j; Q[j] = P[i]; }
            }
        }
      for (j = 0; j < n2; j++) if (!used[j] && n && one(3)) { Q[j] = P[R(n)]; if (Q[j].n) Q[j].d[R(Q[j].n)] ^= 1 << R(8); }
      run_batch(enc, 0, m, Q, O2, n2, pl(), 0, 0);
      for (i = 0; i < n; i++) if (where[i] >= 0 && !same(O1 + i, O2 + where[i])) { bad("packet %ld of %ld (%ld bytes) has another outcome as packet %ld of another batch", i, n, P[i].n, where[i]); break; }
    }
}
static void m_limit(void)
{
  u8 w[8]; int i, c, n, enc = R(2), top = one(3) ? 400 : one(3) ? MAXP : 230; unsigned m = 8 * R(24);
  word(w); bkey(0, w);
  n = packets(P, top, -1);
  for (i = 0; i < n; i++) if (one(4)) { P[i].n = (int)m + (int)R(19) - 9; if (P[i].n < 0) P[i].n = 0; payload(P[i].d, P[i].n); }
  run_batch(enc, 0, m, P, O1, n, pl(), 0, 0);
  for (i = 0; i < n; i++) { Q[i] = P[i]; if (Q[i].n > (int)m) Q[i].n = m; }
  unsigned m2 = one(2) ? 184 : m + 8 * R((184 - m) / 8 + 1);
  run_batch(enc, 0, m2, Q, O2, n, pl(), 0, 0);
  for (i = 0; i < n; i++)
    {
      c = Q[i].n;
      if (memcmp(O1[i].d, O2[i].d, c)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: not processed as a packet of that length", i, n, P[i].n, m); break; }
      if (memcmp(O1[i].d + c, P[i].d + c, P[i].n - c)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: changed behind the limit", i, n, P[i].n, m); break; }
    }
  if (one(3) && n)
    {
      /* one packet of any length there is */
      map_far();
      if (!giant) return;
      uint32_t len = one(3) ? rnd() >> 8 : one(2) ? (1u << R(32)) + R(400) - 200 : 0u - R(400); u8 *e; int q = R(n), z;
      if (len < 400) len += 400;
      payload(giant, 184); for (z = 184; z < 400; z++) giant[z] = z * 5; e = giant + len; for (z = 1; z <= 200 && z < (int64_t)len - 400; z++) e[-z] = z * 3;
      for (z = 0; z < 64; z++) e[z] = z * 7;
      P[q].n = m; memcpy(P[q].d, giant, 184); for (i = 0; i < n; i++) { if (P[i].n > (int)m) P[i].n = m; memcpy(arena + 512 * i, P[i].d, P[i].n); desc[i].data = arena + 512 * i; desc[i].len = P[i].n; }
      desc[q].data = giant; desc[q].len = len; desc[n].data = 0;
      run_batch(enc, 0, m2, P, O2, n, pl(), 0, 0);
      for (i = 0; i < n; i++) { memcpy(arena + 512 * i, P[i].d, P[i].n); desc[i].data = arena + 512 * i; desc[i].len = P[i].n; }
      desc[q].data = giant; desc[q].len = len; desc[n].data = 0;
      if (enc) dvbcsa_bs_encrypt(bk[0], desc, m); else dvbcsa_bs_decrypt(bk[0], desc, m);
      if (memcmp(giant, O2[q].d, m) || memcmp(giant + m, P[q].d + m, 184 - m)) bad("packet %ld of %ld (%ld bytes) with limit %ld: not processed as a packet of that length", q, n, len, m);
      for (z = 184; z < 400; z++) if (giant[z] != (u8)(z * 5)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: changed behind the limit", q, n, len, m); break; }
      for (z = 1; z <= 200 && z < (int64_t)len - 400; z++) if (e[-z] != (u8)(z * 3)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: end changed", q, n, len, m); break; }
      for (z = 0; z < 64; z++) if (e[z] != (u8)(z * 7)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: changed behind its end", q, n, len, m); break; }
      madvise(giant + (((size_t)len - 400) & ~(size_t)65535), 131072, MADV_DONTNEED);
      for (i = 0; i < n; i++) if (i != q && memcmp(arena + 512 * i, O2[i].d, P[i].n)) { bad("packet %ld of %ld (%ld bytes) with limit %ld: has another outcome beside a long one", i, n, P[i].n, m); break; }
    }
}
static void m_short(void)
{
  u8 w[8]; int i, j, n, k, enc = R(2), single = one(4); unsigned m;
  word(w);
  if (single) { skey(0, w); n = 24; for (i = 0; i < n; i++) { P[i].n = one(3) ? R(10) : one(8) ? R(MAXP) : plen(191); payload(P[i].d, P[i].n); } }
  else { bkey(0, w); n = packets(P, one(3) ? 8 * (1 + R(23)) : 184, -1); for (i = 0; i < n; i++) if (one(6)) { P[i].n = R(8); } }
  m = limit_for(longest(P, n));
  for (i = 0; i < n; i++)
    {
      Q[i] = P[i]; k = P[i].n - P[i].n % 8;
      if (P[i].n >= 8) for (j = k; j < P[i].n; j++) if (one(2)) Q[i].d[j] ^= one(2) ? 1 << R(8) : R(256);
    }
  if (single) for (i = 0; i < n; i++) { run_single(enc, 0, P + i, O1 + i, R(64)); run_single(enc, 0, Q + i, O2 + i, R(64)); }
  else { run_batch(enc, 0, m, P, O1, n, pl(), 0, 0); run_batch(enc, 0, limit_for(longest(P, n)), Q, O2, n, pl(), 0, 0); }
  for (i = 0; i < n; i++)
    {
      if (P[i].n < 8 && !same(P + i, O1 + i)) { bad("packet of %ld bytes was changed", P[i].n, 0, 0, 0); break; }
      for (j = 0; j < P[i].n; j++)
        if ((P[i].d[j] ^ Q[i].d[j]) != (O1[i].d[j] ^ O2[i].d[j])) { bad("flipped residue bits of packet %ld of %ld (%ld bytes) have another effect at byte %ld", i, n, P[i].n, j); return; }
    }
  /* without the residue */
  for (i = 0; i < n; i++) { Q[i] = P[i]; Q[i].n -= Q[i].n % 8; }
  if (single) for (i = 0; i < n; i++) run_single(enc, 0, Q + i, O2 + i, R(64));
  else run_batch(enc, 0, limit_for(longest(Q, n)), Q, O2, n, pl(), 0, 0);
  for (i = 0; i < n; i++) if (memcmp(O1[i].d, O2[i].d, Q[i].n)) { bad("the whole blocks of packet %ld of %ld (%ld bytes) depend on the residue", i, n, P[i].n, 0); return; }
}
static void m_frame(void)
{
  u8 w[8]; int i, n, enc = R(2); unsigned m = one(2) ? 184 : 8 * R(24);
  word(w); bkey(0, w); skey(0, w);
  n = packets(P, one(3) ? 400 : one(2) ? 184 : 30, -1);
  run_batch(enc, 0, m, P, O1, n, pl(), one(2) ? 3 : 0, 1);
  for (i = 0; i < 20; i++)
    {
      int L = one(3) ? R(20) : R(300), o = 64 + R(64), q;
      for (q = 0; q < 800; q++) arena[q] = 0x5A ^ (q * 3);
      payload(arena + o, L); memcpy(shadow, arena, 800);
      if (enc) dvbcsa_encrypt(sk[0], arena + o, L); else dvbcsa_decrypt(sk[0], arena + o, L);
      for (q = 0; q < 800; q++) if (arena[q] != shadow[q] && (q < o || q >= o + L)) { bad("a single packet of %ld bytes: byte %ld before or after it changed", L, q - o, 0, 0); return; }
    }
}
/* one step of a history with handle h; the reference comes from a fresh context */
static void fresh_ref(int kind, int enc, const u8 *w, unsigned m, int n)
{
  int i;
  if (!kind) { sfree(63); skey(63, w); for (i = 0; i < n; i++) run_single(enc, 63, P + i, O2 + i, R(64)); }
  else { bfree(63); bkey(63, w); run_batch(enc, 63, m, P, O2, n, pl(), 0, 0); }
}
static void step(int kind, int h, const u8 *w)
{
  int i, n, enc = R(2), top = one(4) ? 184 : 32; unsigned m = one(3) ? 8 * R(24) : 184;
  n = kind ? packets(P, top, one(3) ? -1 : (int)R(5)) : 1;
  if (!kind) { P[0].n = one(8) ? R(300) : plen(top); payload(P[0].d, P[0].n); run_single(enc, h, P, O1, R(64)); }
  else run_batch(enc, h, m, P, O1, n, pl(), 0, 0);
  if (one(3)) return;
  fresh_ref(kind, enc, w, m, n);
  for (i = 0; i < n; i++) if (!same(O1 + i, O2 + i)) { bad("kind %ld: packet of %ld bytes: not what a fresh context with the word gives (context %ld)", kind, P[i].n, h, 0); return; }
}
static u8 CWM[16];
static void set_from(int kind, int h, const u8 *w)     /* the memory the word is passed in is reused */
{
  u8 *p = CWM + R(9);
  memcpy(p, w, 8);
  if (kind) bkey(h, p); else skey(h, p);
  if (!one(3)) fill(p, 8);
}
static void m_word(void)
{
  u8 w[8], v[8]; int kind = R(2), j, N = 2 + R(10);
  if (kind) bfree(0); else sfree(0);
  word(w); set_from(kind, 0, w);
  for (j = 0; j < N; j++)
    {
      switch (R(4))
        {
        case 0: memcpy(v, w, 8); near(w); set_from(kind, 0, w); if (one(3)) { memcpy(w, v, 8); set_from(kind, 0, w); } break;
        case 1: set_from(kind, 0, w); break;
        case 2: if (one(3)) { word(w); set_from(kind, 0, w); } if (one(6)) { if (kind) bfree(0); else sfree(0); set_from(kind, 0, w); } break;
        default: step(kind, 0, w);
        }
    }
  step(kind, 0, w);
}
static void m_ctx(void)
{
  static u8 w[40][8]; static char kind[40], live[40]; u8 base[8]; int j, h, K = 2 + (one(4) ? R(38) : R(6)), N = 10 + R(30);
  word(base);
  for (h = 0; h < 40; h++) { sfree(h); bfree(h); live[h] = 0; }
  for (j = 0; j < N; j++)
    {
      h = R(K);
      if (!live[h])
        {
          kind[h] = R(2); memcpy(w[h], base, 8); if (one(2)) near(w[h]); if (one(4)) word(w[h]);
          live[h] = 1; set_from(kind[h], h, w[h]); continue;
        }
      switch (R(8))
        {
        case 0: if (kind[h]) bfree(h); else sfree(h); live[h] = 0; break;
        case 1: { int g = R(K); if (live[g] && one(2)) memcpy(w[h], w[g], 8); if (one(2)) near(w[h]); set_from(kind[h], h, w[h]); break; }
        default: step(kind[h], h, w[h]);
        }
    }
}
static void m_place(void)
{
  u8 w[8]; int i, k, n, enc = R(2); unsigned m;
  word(w); bfree(0); memcpy(CWM + (k = R(9)), w, 8); bkey(0, CWM + k);
  n = packets(P, 184, -1); m = one(3) ? 8 * R(24) : 184;
  run_batch(enc, 0, m, P, O1, n, pl(), 0, 0);
  if (one(2)) { memcpy(CWM + (k = R(9)), w, 8); bkey(1, CWM + k); k = 1; } else k = 0;
  run_batch(enc, k, m, P, O2, n, pl(), 0, 0);
  for (i = 0; i < n; i++) if (!same(O1 + i, O2 + i)) { bad("packet %ld of %ld (%ld bytes) has another outcome elsewhere in memory", i, n, P[i].n, 0); break; }
  if (one(2))
    {
      map_far(); u8 *p = far_[R(nfar)].p + 65536 - R(9);
      memcpy(p, w, 8); bkey(2, p); run_far(enc, 2, m, P, O2, n);
      for (i = 0; i < n; i++) if (!same(O1 + i, O2 + i)) { bad("packet %ld of %ld (%ld bytes) has another outcome far away in memory", i, n, P[i].n, 0); break; }
    }
  memcpy(CWM + (k = R(9)), w, 8); skey(0, CWM + k); memcpy(CWM + (k = R(9)), w, 8); skey(1, CWM + k);
  for (i = 0; i < 10; i++)
    {
      P[0].n = one(4) ? R(700) : plen(184); payload(P[0].d, P[0].n);
      run_single(enc, 0, P, O1, R(5000)); run_single(enc, 1, P, O2, R(5000));
      if (!same(O1, O2)) { bad("a packet of %ld bytes has another outcome elsewhere in memory", P[0].n, 0, 0, 0); break; }
      single_far(enc, i % 2, P, O2);
      if (!same(O1, O2)) { bad("a packet of %ld bytes has another outcome far away in memory", P[0].n, 0, 0, 0); break; }
    }
}
/* long use: contexts that are set once and used very often, set very often, allocated very
   often, and very many at once; the outcomes known from contexts used once */
#ifndef WEAR
#define WEAR 70000
#endif
static void m_wear(long t)
{
  static u8 w[5][8], in[5][8], ek[5][5][2][8], d[2][200]; static struct pk one_[1]; int i, j, e; long c; struct dvbcsa_bs_batch_s b[3];
  for (i = 0; i < 5; i++) { word(w[i]); if (i & 1) { memcpy(w[i], w[i - 1], 8); near(w[i]); } fill(in[i], 8); }
  for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) for (e = 0; e < 2; e++)
    { sfree(63); skey(63, w[i]); one_[0].n = 8; memcpy(one_[0].d, in[j], 8); run_single(e, 63, one_, O2, 0); memcpy(ek[i][j][e], O2[0].d, 8); }
#define EXPECT(what) if (memcmp(d[0], ek[i][j][e], 8)) { bad(what " (step %ld, context %ld)", c, i, 0, 0); return; }
  switch (t % 6)
    {
    case 0: case 1:                                  /* set once */
      for (i = 0; i < 5; i++) { sfree(i); bfree(i); skey(i, w[i]); bkey(i, w[i]); }
      for (c = 0; c < (t % 6 ? WEAR : 5 * WEAR); c++)
        {
          i = t % 12 < 6 ? c % 5 : c % 977 == 0 ? 1 : 0; j = (c >> 3) % 5; e = (c >> 1) & 1;
          memcpy(d[0], in[j], 8);
          if (t % 6 == 0) { if (e) dvbcsa_encrypt(sk[i], d[0], 8); else dvbcsa_decrypt(sk[i], d[0], 8); }
          else { b[0].data = d[0]; b[0].len = 8; b[1].data = 0; if (e) dvbcsa_bs_encrypt(bk[i], b, 8); else dvbcsa_bs_decrypt(bk[i], b, 8); }
          EXPECT("a context used often gives another outcome")
        }
      break;
    case 2: case 3:                                  /* set often */
      sfree(0); bfree(0); skey(0, w[0]); bkey(0, w[0]);
      for (c = 0; c < (t % 6 == 2 ? 2 * WEAR : WEAR); c++)
        {
          i = c % 5; j = (c >> 3) % 5; e = (c >> 1) & 1;
          if (t % 6 == 2) skey(0, w[i]); else bkey(0, w[i]);
          if (t % 6 == 3 && c % 16 && c % (WEAR / 20) > 40) continue;
          memcpy(d[0], in[j], 8);
          if (t % 6 == 2) { if (e) dvbcsa_encrypt(sk[0], d[0], 8); else dvbcsa_decrypt(sk[0], d[0], 8); }
          else { b[0].data = d[0]; b[0].len = 8; b[1].data = 0; if (e) dvbcsa_bs_encrypt(bk[0], b, 8); else dvbcsa_bs_decrypt(bk[0], b, 8); }
          EXPECT("a context set often gives another outcome")
        }
      break;
    case 4:                                          /* allocated often */
      for (c = 0; c < WEAR; c++)
        {
          struct dvbcsa_key_s *k; struct dvbcsa_bs_key_s *q;
          i = c % 5; j = (c >> 3) % 5; e = (c >> 1) & 1; memcpy(d[0], in[j], 8);
          k = dvbcsa_key_alloc(); q = dvbcsa_bs_key_alloc();
          if (!k || !q) { bad("allocation %ld fails", c, 0, 0, 0); return; }
          dvbcsa_key_set(w[i], k); if (e) dvbcsa_encrypt(k, d[0], 8); else dvbcsa_decrypt(k, d[0], 8);
          EXPECT("a context allocated late gives another outcome")
          if (c % 16 == 0 || c > WEAR - 1000)
            {
              memcpy(d[0], in[j], 8); b[0].data = d[0]; b[0].len = 8; b[1].data = 0; dvbcsa_bs_key_set(w[i], q);
              if (e) dvbcsa_bs_encrypt(q, b, 8); else dvbcsa_bs_decrypt(q, b, 8);
              EXPECT("a batch context allocated late gives another outcome")
            }
          dvbcsa_key_free(k); dvbcsa_bs_key_free(q);
        }
      break;
    case 5:                                          /* many at once */
      {
        long NS = WEAR, NB = WEAR / 8; static struct dvbcsa_key_s **k; static struct dvbcsa_bs_key_s **q;
        k = calloc(NS, sizeof *k); q = calloc(NB, sizeof *q); if (!k || !q) _exit(70);
#define W(c) (((c) * 7 + (c) / 5) % 5)
        for (c = 0; c < NS; c++) { if (!(k[c] = dvbcsa_key_alloc())) { bad("allocation %ld fails", c, 0, 0, 0); return; } dvbcsa_key_set(w[W(c)], k[c]);
                                   if (c < NB) { if (!(q[c] = dvbcsa_bs_key_alloc())) { bad("batch allocation %ld fails", c, 0, 0, 0); return; } dvbcsa_bs_key_set(w[W(c)], q[c]); } }
        for (c = 0; c < NS; c++)
          {
            if (t % 12 > 6 && c % 3 == 0) { dvbcsa_key_free(k[c]); k[c] = 0; if (c < NB) { dvbcsa_bs_key_free(q[c]); q[c] = 0; } continue; }
            i = W(c); j = (c >> 3) % 5; e = (c >> 1) & 1; memcpy(d[0], in[j], 8);
            if (e) dvbcsa_encrypt(k[c], d[0], 8); else dvbcsa_decrypt(k[c], d[0], 8);
            EXPECT("one of many contexts gives another outcome")
            if (c < NB)
              {
                memcpy(d[0], in[j], 8); b[0].data = d[0]; b[0].len = 8; b[1].data = 0;
                if (e) dvbcsa_bs_encrypt(q[c], b, 8); else dvbcsa_bs_decrypt(q[c], b, 8);
                EXPECT("one of many batch contexts gives another outcome")
              }
          }
        for (c = 0; c < NS; c++) { if (k[c]) dvbcsa_key_free(k[c]); if (c < NB && q[c]) dvbcsa_bs_key_free(q[c]); }
        free(k); free(q);
      }
    }
}
/* longer still: what comes once in many millions, until the time is up.  Case 7 k: */
static double since(const struct timespec *a) { struct timespec b; clock_gettime(CLOCK_MONOTONIC, &b); return b.tv_sec - a->tv_sec + 1e-9 * (b.tv_nsec - a->tv_nsec); }
static int long_secs = 5;
static void m_long(long t)
{
  static u8 w[8][8], in[8][8], ek[8][8][2][8], d[2][256]; static struct pk one_[1]; int i, j, e; long c; struct dvbcsa_bs_batch_s b[3]; struct timespec a;
  static struct dvbcsa_key_s *s; static struct dvbcsa_bs_key_s *q;
  b[1].data = 0;
  for (i = 0; i < 8; i++) { word(w[i]); fill(in[i], 8); }
  for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) for (e = 0; e < 2; e++)
    { sfree(63); skey(63, w[i]); one_[0].n = 8; memcpy(one_[0].d, in[j], 8); run_single(e, 63, one_, O2, 0); memcpy(ek[i][j][e], O2[0].d, 8); }
  sfree(0); bfree(0); skey(0, w[i = 0]); bkey(0, w[0]); s = sk[0]; q = bk[0]; clock_gettime(CLOCK_MONOTONIC, &a);
#define LONGER for (c = 0; c < (1l << 36) && (c & 4095 || since(&a) < long_secs); c++)
  switch (t % 7)
    {
    case 0:                                          /* one context set, used each time */
      LONGER { i = c & 7; j = (c >> 3) & 7; e = (c >> 1) & 1; dvbcsa_key_set(w[i], s); memcpy(d[0], in[j], 8);
               if (e) dvbcsa_encrypt(s, d[0], 8); else dvbcsa_decrypt(s, d[0], 8);
               EXPECT("a context set very often gives another outcome") }
      break;
    case 1:                                          /* used only */
      i = R(8); skey(0, w[i]);
      LONGER { j = c & 7; e = (c >> 3) & 1; memcpy(d[0], in[j], 8); if (e) dvbcsa_encrypt(s, d[0], 8); else dvbcsa_decrypt(s, d[0], 8);
               EXPECT("a context used very often gives another outcome") }
      break;
    case 2:                                          /* set only, used at times near round numbers */
      LONGER { uint64_t v = rnd(); dvbcsa_key_set((u8 *)&v, s); i = c & 7; dvbcsa_key_set(w[i], s);
               if (c % 4 && (c + 8) % 256 > 16 && (c + 8) % 1000 > 16) continue;
               j = (c >> 3) & 7; e = (c >> 1) & 1; memcpy(d[0], in[j], 8); if (e) dvbcsa_encrypt(s, d[0], 8); else dvbcsa_decrypt(s, d[0], 8);
               EXPECT("a context set very often gives another outcome") }
      break;
    case 3:                                          /* a batch context set, its schedule used by a batch of one packet at times */
      LONGER { i = c & 7; dvbcsa_bs_key_set(w[i], q);
               if (c & 3 && (c + 8) % 256 > 16 && ((c + 8) % 1000 > 16)) continue;
               j = (c >> 3) & 7; e = (c >> 1) & 1; memcpy(d[0], in[j], 8); b[0].data = d[0]; b[0].len = 8; if (e) dvbcsa_bs_encrypt(q, b, 8); else dvbcsa_bs_decrypt(q, b, 8);
               EXPECT("a batch context set very often gives another outcome") }
      break;
    case 4:                                          /* batches only */
      i = R(8); bkey(0, w[i]);
      LONGER { static u8 many[MAXN][8]; static struct dvbcsa_bs_batch_s z[MAXN + 1]; unsigned k;
               if (c % 3 == 0)
                 {
                   e = (c / 3) & 1;
                   for (k = 0; k < BS; k++) { memcpy(many[k], in[(k + c) & 7], 8); z[k].data = many[k]; z[k].len = 8; }
                   z[k].data = 0; if (e) dvbcsa_bs_encrypt(q, z, 184); else dvbcsa_bs_decrypt(q, z, 184);
                   for (k = 0; k < BS; k++) if (memcmp(many[k], ek[i][(k + c) & 7][e], 8)) { bad("a batch context used very often gives another outcome (step %ld, packet %ld)", c, k, 0, 0); return; }
                   continue;
                 }
               j = c & 7; e = (c >> 3) & 1; memcpy(d[0], in[j], 8); b[0].data = d[0]; b[0].len = 8; if (e) dvbcsa_bs_encrypt(q, b, 8); else dvbcsa_bs_decrypt(q, b, 8);
               EXPECT("a batch context used very often gives another outcome") }
      break;
    case 5: case 6:                                  /* allocated, used, freed */
      LONGER
        {
          i = c & 7; j = (c >> 3) & 7; e = (c >> 1) & 1; memcpy(d[0], in[j], 8);
          if (t % 7 == 5)
            {
              struct dvbcsa_key_s *k = dvbcsa_key_alloc(); if (!k) { bad("allocation %ld fails", c, 0, 0, 0); return; }
              dvbcsa_key_set(w[i], k); if (e) dvbcsa_encrypt(k, d[0], 8); else dvbcsa_decrypt(k, d[0], 8);
              EXPECT("a context allocated late gives another outcome")
              dvbcsa_key_free(k);
            }
          else
            {
              struct dvbcsa_bs_key_s *k = dvbcsa_bs_key_alloc(); if (!k) { bad("batch allocation %ld fails", c, 0, 0, 0); return; }
              if (c & 7 && (c + 8) % 256 > 16) { dvbcsa_bs_key_free(k); continue; }
              dvbcsa_bs_key_set(w[i], k); b[0].data = d[0]; b[0].len = 8; if (e) dvbcsa_bs_encrypt(k, b, 8); else dvbcsa_bs_decrypt(k, b, 8);
              EXPECT("a batch context allocated late gives another outcome")
              dvbcsa_bs_key_free(k);
            }
        }
    }
  fprintf(stdout, "LONG %ld %ld\n", t % 7, c);
}
/* every length of a single payload: case t has 601 + t bytes */
static void m_length(int kind, long t)
{
  static u8 *p, *a, *b, *c; u8 w[8]; long n = 601 + t, k = n - n % 8, i; int enc;
  if (!p) { p = malloc(1 << 17); a = malloc(1 << 17); b = malloc(1 << 17); c = malloc(1 << 17); }
  if (n > 1 << 17) return;
  word(w); skey(0, w); fill(p, 16); for (i = 16; i < n; i += 8) { uint64_t v = rnd() * 0x9e3779b97f4a7c15ull; memcpy(p + i, &v, n - i < 8 ? n - i : 8); }
  if (one(4)) payload(p + R(n - 200), 200);
  memcpy(a, p, n);
#define DO(e, x) do { if (e) dvbcsa_encrypt(sk[0], x, n); else dvbcsa_decrypt(sk[0], x, n); } while (0)
  switch (kind)
    {
    case 0: case 1:
      DO(kind, a); spec_scramble(kind, w, p, b, n);
      if (memcmp(a, b, n)) bad("outcome for a payload of %ld bytes is not the specified one", n, 0, 0, 0);
      break;
    case 2:
      for (enc = 0; enc < 2; enc++)
        { memcpy(a, p, n); DO(enc, a); DO(!enc, a); if (memcmp(a, p, n)) bad("payload of %ld bytes does not come back (%ld)", n, enc, 0, 0); }
      break;
    case 3:
      for (enc = 0; enc < 2; enc++)
        {
          memcpy(a, p, n); memcpy(b, p, n); for (i = k; i < n; i++) b[i] = ~b[i];
          DO(enc, a); DO(enc, b);
          if (memcmp(a, b, k)) bad("the residue of a payload of %ld bytes changes its blocks", n, 0, 0, 0);
          for (i = k; i < n; i++) if ((u8)~a[i] != b[i]) { bad("the residue of a payload of %ld bytes is not just masked", n, 0, 0, 0); break; }
        }
      break;
    case 4:
      memcpy(b, p, n); for (i = R(4); i >= 0; i--) b[8 + R(n - 8)] ^= 1 << R(8);
      memcpy(c, b, n); DO(0, a); DO(0, c);
      if (!rel_damage(p, a, b, c, n)) bad("damage in a payload of %ld bytes spreads", n, 0, 0, 0);
      break;
    }
}
/* Very many threads, alive together or one after another, of which only one runs at a time (what
   happens when they overlap is harness/conc.c).  What the library keeps for each thread
   must not depend on how many there are and were. */
#define TLEN 45
#define TMAX 1500
static u8 tw[8][8], tin[8][TLEN], tout[8][8][2][TLEN];
static struct dvbcsa_key_s *t_s; static struct dvbcsa_bs_key_s *t_q; static int t_i;
static struct thr { pthread_t t; sem_t go; int id, i, shared, todo; struct dvbcsa_key_s *s; struct dvbcsa_bs_key_s *q; } thr[TMAX];
static sem_t back;
static void t_use(struct thr *x, int single, int batch)
{
  u8 d[4][TLEN]; int j = (x->id * 2246822519u >> 15) % 8, e = x->id / 3 % 2, k, n = 1 + x->id % 4; struct dvbcsa_bs_batch_s b[5];
  if (single)
    {
      memcpy(d[0], tin[j], TLEN); if (e) dvbcsa_encrypt(x->s, d[0], TLEN); else dvbcsa_decrypt(x->s, d[0], TLEN);
      if (memcmp(d[0], tout[x->i][j][e], TLEN)) bad("thread %ld gets another outcome of a single packet operation", x->id, 0, 0, 0);
    }
  if (batch)
    {
      for (k = 0; k < n; k++) { memcpy(d[k], tin[(j + k) % 8], TLEN); b[k].data = d[k]; b[k].len = TLEN; }
      b[n].data = 0; if (e) dvbcsa_bs_encrypt(x->q, b, 48); else dvbcsa_bs_decrypt(x->q, b, 48);
      for (k = 0; k < n; k++) if (memcmp(d[k], tout[x->i][(j + k) % 8][e], TLEN)) bad("thread %ld gets another outcome of a batch operation (packet %ld)", x->id, k, 0, 0);
    }
}
static void t_step(struct thr *x, int what)
{
  switch (what)
    {
    case 0: if (x->shared) { x->s = t_s; x->i = t_i; } else if (!(x->s = dvbcsa_key_alloc())) bad("allocation in thread %ld fails", x->id, 0, 0, 0); break;
    case 1: if (!x->shared) dvbcsa_key_set(tw[x->i = (x->id * 2654435761u >> 13) % 8], x->s); break;
    case 2: t_use(x, 1, 0); break;
    case 3: if (x->shared) x->q = t_q; else if (!(x->q = dvbcsa_bs_key_alloc())) bad("batch allocation in thread %ld fails", x->id, 0, 0, 0); break;
    case 4: if (!x->shared) dvbcsa_bs_key_set(tw[x->i], x->q); break;
    case 5: t_use(x, 0, 1); break;
    case 6: if (!x->shared) { x->i = (x->i + x->id % 2 * 3) % 8; dvbcsa_key_set(tw[x->i], x->s); dvbcsa_bs_key_set(tw[x->i], x->q); } break;
    case 7: t_use(x, 1, 1); break;
    case 8: if (!x->shared) { dvbcsa_key_free(x->s); dvbcsa_bs_key_free(x->q); } break;
    }
}
static void *t_main(void *v)
{
  struct thr *x = v;
  for (;;) { while (sem_wait(&x->go)); if (x->todo < 0) break; if (!shm->msg[0]) t_step(x, x->todo); sem_post(&back); }
  return 0;
}
static void *t_life(void *v) { struct thr *x = v; int k; for (k = 0; k < 9 && !shm->msg[0]; k++) t_step(x, k); return 0; }
static pthread_attr_t t_attr;
static int t_new(struct thr *x, int id, int shared) { sem_init(&x->go, 0, 0); x->id = id; x->shared = shared; x->s = 0; x->q = 0; return !pthread_create(&x->t, &t_attr, t_main, x); }
static void t_turn(struct thr *x, int what) { x->todo = what; sem_post(&x->go); while (sem_wait(&back)); }
static void t_end(struct thr *x) { x->todo = -1; sem_post(&x->go); pthread_join(x->t, 0); }
static void m_threads(long t)
{
  static struct pk p[1]; int i, j, e, n, k; long c;
  for (i = 0; i < 8; i++) { word(tw[i]); fill(tin[i], TLEN); }
  for (i = 0; i < 8; i++) for (j = 0; j < 8; j++) for (e = 0; e < 2; e++)
    { sfree(63); skey(63, tw[i]); p[0].n = TLEN; memcpy(p[0].d, tin[j], TLEN); run_single(e, 63, p, O2, 0); memcpy(tout[i][j][e], O2[0].d, TLEN); }
  t_i = R(8); skey(0, tw[t_i]); bkey(0, tw[t_i]); t_s = sk[0]; t_q = bk[0];
  sem_init(&back, 0, 0); pthread_attr_init(&t_attr); pthread_attr_setstacksize(&t_attr, 512 << 10);
  switch (t % 4)
    {
    case 0: case 1:                                  /* at the same time */
      for (n = 0; n < TMAX - 100 && t_new(thr + n, n, t % 4 == 1); n++) ;
      for (k = 0; k < 8; k++)
        for (i = 0; i < n && !shm->msg[0]; i++) t_turn(thr + (k & 1 ? n - 1 - i : i), k);
      for (i = 0; i < n; i += 2) { t_turn(thr + i, 8); t_end(thr + i); }
      for (k = 0; k < 50 && n > 100; k++)                             /* new ones among those left */
        if (t_new(thr + TMAX - 100 + k, k, t % 4 == 1)) for (j = 0; j < 8; j++) t_turn(thr + TMAX - 100 + k, j); else break;
      for (j = 5; j < 8; j++) for (i = 1; i < n; i += 2) t_turn(thr + i, j);
      for (i = 1; i < n; i += 2) { t_turn(thr + i, 8); t_end(thr + i); }
      while (k-- > 0 && n > 100) { t_turn(thr + TMAX - 100 + k, 7); t_turn(thr + TMAX - 100 + k, 8); t_end(thr + TMAX - 100 + k); }
      break;
    case 2:                                          /* one after another */
      n = 0;
      for (c = 0; c < 70000 && !shm->msg[0]; c++)
        { thr->id = c; thr->shared = c % 3 == 0; if (pthread_create(&thr->t, &t_attr, t_life, thr)) break; pthread_join(thr->t, 0); n++; }
      break;
    case 3:                                          /* some 60 of them coming and going */
      { static int at[60]; n = 0;
        for (c = 0; c < 30000 && !shm->msg[0]; c++)
          {
            i = R(60); if (!thr[i].t) { if (!t_new(thr + i, n++, one(4))) break; at[i] = 0; continue; }
            t_turn(thr + i, at[i]);
            if (at[i]++ == 8) { t_end(thr + i); thr[i].t = 0; }
          }
        for (i = 0; i < 60; i++) if (thr[i].t) t_end(thr + i);
      }
    }
  fprintf(stdout, "LONG %ld %d\n", 100 + t % 4, n);
}
/* Words, and packets, that agree in one of the usual checksums or hashes.  What is computed
   once and kept is often found again by such a value. */
static uint32_t le(const u8 *w) { uint32_t v; memcpy(&v, w, 4); return v; }
static uint32_t be(const u8 *w) { return __builtin_bswap32(le(w)); }
static uint32_t rol(uint32_t v, int k) { return k ? v << k | v >> (32 - k) : v; }
static uint32_t crc(const u8 *w, int n, uint32_t poly, int refl, uint32_t c)
{
  int i, k;
  for (i = 0; i < n; i++)
    if (refl) { c ^= w[i]; for (k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ poly : c >> 1; }
    else { c ^= (uint32_t)w[i] << 24; for (k = 0; k < 8; k++) c = c & 0x80000000u ? c << 1 ^ poly : c << 1; }
  return c;
}
static uint64_t fmix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; return h ^ h >> 33; }
static uint32_t fmix32(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; return h ^ h >> 16; }
#define NHASH 124
static uint32_t hash32(int f, const u8 *w)
{
  uint32_t h = 0, a = le(w), b = le(w + 4), A = be(w), B = be(w + 4), x, y; int i; uint64_t q, Q;
  memcpy(&q, w, 8); Q = __builtin_bswap64(q);
#define EACH for (i = 0; i < 8; i++)
  if (f >= 60) { i = (f - 60) % 32; return f < 92 ? a ^ rol(b, i) : a + rol(b, i); }
  switch (f)
    {
    case 0: return crc(w, 8, 0xedb88320u, 1, -1);
    case 1: return crc(w, 8, 0x04c11db7u, 0, -1);
    case 2: return crc(w, 8, 0x82f63b78u, 1, -1);
    case 3: x = 1; y = 0; EACH { x += w[i]; y += x; } return y << 16 | x;
    case 4: h = 2166136261u; EACH { h *= 16777619; h ^= w[i]; } return h;
    case 5: h = 2166136261u; EACH { h ^= w[i]; h *= 16777619; } return h;
    case 6: h = 5381; EACH h = h * 33 + w[i]; return h;
    case 7: h = 5381; EACH h = h * 33 ^ w[i]; return h;
    case 8: EACH h = h * 65599 + w[i]; return h;
    case 9: EACH { h += w[i]; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; return h + (h << 15);
    case 10: return a ^ b;
    case 11: return a + b;
    case 12: return a - b;
    case 13: return A + B;
    case 14: return A - B;
    case 15: EACH h = h * 31 + w[i]; return h;
    case 16: return a * 31 + b;
    case 17: return A * 31 + B;
    case 18: return b * 31 + a;
    case 19: return B * 31 + A;
    case 20: return a * 0x9e3779b1u + b;
    case 21: return a * 0x9e3779b1u ^ b;
    case 22: return A * 0x9e3779b1u ^ B;
    case 23: return (a ^ b) * 0x9e3779b1u;
    case 24: return a ^ b * 0x9e3779b1u;
    case 25: return A ^ B * 0x9e3779b1u;
    case 26: return q * 0x9e3779b97f4a7c15ull >> 32;
    case 27: return Q * 0x9e3779b97f4a7c15ull >> 32;
    case 28: return q * 0x9e3779b97f4a7c15ull;
    case 29: return fmix(q);
    case 30: return fmix(q) >> 32;
    case 31: return fmix(Q);
    case 32: return fmix(Q) >> 32;
    case 33: return fmix32(a ^ b);
    case 34: EACH h = rol(h, 5) ^ w[i]; return h;
    case 35: EACH h = rol(h, 1) ^ w[i]; return h;
    case 36: EACH h = rol(h, 1) + w[i]; return h;
    case 37: EACH h = rol(h, 7) ^ w[i]; return h;
    case 38: EACH { h = (h << 4) + w[i]; if ((x = h & 0xf0000000u)) h ^= x >> 24; h &= ~x; } return h;
    case 39: h = a; return h ^ (b + 0x9e3779b9u + (h << 6) + (h >> 2));
    case 40: h = A; return h ^ (B + 0x9e3779b9u + (h << 6) + (h >> 2));
    case 41: x = y = 0xffff; for (i = 0; i < 8; i += 2) { x = (x + w[i] + 256 * w[i + 1]) % 65535; y = (y + x) % 65535; } return y << 16 | x;
    case 42: x = y = 0; EACH { x = (x + w[i]) % 255; y = (y + x) % 255; } return y << 8 | x;
    case 43: EACH h += w[i]; return h;
    case 44: EACH h ^= w[i]; return h;
    case 45: EACH h += (i + 1) * w[i]; return h;
    case 46: for (i = 0; i < 8; i += 2) h ^= w[i] | w[i + 1] << 8; return h;
    case 47: for (i = 0; i < 8; i += 2) h += w[i] | w[i + 1] << 8; return h;
    case 48: EACH h = h * 131 + w[i]; return h;
    case 49: EACH h = h * 37 + w[i]; return h;
    case 50: EACH h = h * 17 + w[i]; return h;
    case 51: EACH h = h * 257 + w[i]; return h;
    case 52: h = 1315423911u; EACH h ^= (h << 5) + w[i] + (h >> 2); return h;
    case 53: h = 0x811c9dc5u; h = (h ^ a) * 16777619; return (h ^ b) * 16777619;
    case 54: h = 0x811c9dc5u; h = (h ^ A) * 16777619; return (h ^ B) * 16777619;
    case 55: return a * b;
    case 56: return (a ^ 0x9e3779b1u) * 0x85ebca77u ^ rol(b * 0xc2b2ae3du, 13);
    case 57: return crc(w, 8, 0xedb88320u, 1, 0) & 0xffff;
    case 58: { uint64_t g = 0xcbf29ce484222325ull; EACH { g ^= w[i]; g *= 0x100000001b3ull; } return g; }
    case 59: { uint64_t g = 0xcbf29ce484222325ull; EACH { g ^= w[i]; g *= 0x100000001b3ull; } return g ^ g >> 32; }
    }
  return 0;
}
struct hw { uint32_t h; u8 w[8]; };
static int cmphw(const void *a, const void *b) { uint32_t x = ((struct hw *)a)->h, y = ((struct hw *)b)->h; return x < y ? -1 : x > y; }
/* up to `most' pairs that agree in function f; kind 0 random, 1 words with right checksums, 2 only some bytes vary */
static int pairs(int f, int kind, u8 (*o)[2][8], int most)
{
  enum { N = 1 << 18 }; static struct hw *t; int i, n = 0; u8 base[8];
  if (!t && !(t = malloc(N * sizeof *t))) _exit(70);
  fill(base, 8);
  for (i = 0; i < N; i++)
    {
      uint64_t v = rnd() ^ rnd() >> 20; memcpy(t[i].w, &v, 8);
      if (kind == 2) memcpy(t[i].w + (f & 1 ? 0 : 5), base, 3);
      if (kind == 1) { u8 *w = t[i].w; w[3] = w[0] + w[1] + w[2]; w[7] = w[4] + w[5] + w[6]; }
      t[i].h = hash32(f, t[i].w);
    }
  qsort(t, N, sizeof *t, cmphw);
  for (i = 1; i < N && n < most; i++)
    if (t[i].h == t[i - 1].h && memcmp(t[i].w, t[i - 1].w, 8)) { int k = R(2); memcpy(o[n][k], t[i].w, 8); memcpy(o[n++][1 - k], t[i - 1].w, 8); i++; }
  return n;
}
static volatile struct { struct pk p; int ok; } *away;
/* the outcome in a process that does nothing else: batch 0 single, 1 batch of one, 2 of spec/CSA.tla */
static void alone(int batch, int enc, const u8 *w, const struct pk *in, struct pk *out)
{
  int st; pid_t c;
  if (batch == 2) { out->n = in->n; spec_scramble(enc, w, in->d, out->d, in->n); return; }
  if (!away && (away = mmap(0, sizeof *away, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) == MAP_FAILED) _exit(70);
  away->ok = 0;
  if (!(c = fork()))
    {
      if (batch) { bfree(62); bkey(62, w); run_batch(enc, 62, 184, in, (struct pk *)&away->p, 1, 0, 0, 0); }
      else { sfree(62); skey(62, w); run_single(enc, 62, in, (struct pk *)&away->p, 0); }
      away->ok = 1; _exit(0);
    }
  if (c < 0) _exit(70);
  while (waitpid(c, &st, 0) < 0) ;
  if (!away->ok) { bad("a single operation does not complete", 0, 0, 0, 0); out->n = -1; return; }
  *out = *(struct pk *)&away->p;
}
static void m_alias_words(long t, int spec)
{
  static u8 o[12][2][8]; int n = pairs(t % NHASH, t / NHASH % 3, o, 12), i, kind, enc, how;
  for (i = 0; i < n && !shm->msg[0]; i++)
    {
      const u8 *a = o[i][0], *b = o[i][1];
      kind = i & 1; enc = R(2); how = R(5);
      P[0].n = 8 + R(17); payload(P[0].d, P[0].n);
      alone(spec ? 2 : kind, enc, b, P, O2);
#define USE(h, out) do { if (kind) run_batch(enc, h, 184, P, out, 1, 0, 0, 0); else run_single(enc, h, P, out, 0); } while (0)
#define SET(h, w) do { if (kind) bkey(h, w); else skey(h, w); } while (0)
#define FREE(h) do { if (kind) bfree(h); else sfree(h); } while (0)
      switch (how)
        {
        case 0: case 1: SET(0, a); if (how) USE(0, O1); SET(0, b); USE(0, O1); break;
        case 2: SET(0, a); USE(0, O1); SET(1, b); USE(1, O1); break;
        case 3: SET(0, a); SET(1, b); USE(0, O1); USE(1, O1); break;
        case 4: FREE(2); SET(2, a); USE(2, O1); FREE(2); SET(3, b); USE(3, O1); FREE(3); break;
        }
      if (!same(O1, O2)) bad("kind %ld: a word that agrees with another one in hash %ld is taken for it (history %ld)", kind, t % NHASH, how, 0);
      if (i % 3 == 0 && !shm->msg[0])                 /* payloads that agree, one after the other */
        {
          u8 w[8]; int at = P[0].n >= 16 && one(3) ? 8 : 0; static struct pk x;
          word(w); x = P[0];
          memcpy(x.d + at, b, 8); alone(spec ? 2 : kind, enc, w, &x, O2);
          SET(4, w); memcpy(P[0].d + at, a, 8); USE(4, O1); P[0] = x; USE(4, O1);
          if (!same(O1, O2)) bad("kind %ld: a payload that agrees with the one before in hash %ld is taken for it", kind, t % NHASH, 0, 0);
        }
    }
}
static void m_alias_packets(long t, int batch)
{
  static u8 o[12][2][8]; int n = pairs(t % NHASH, 0, o, 12), i, k, enc = R(2), len = 8 + R(40), m; u8 w[8]; static struct pk in[24], out[24];
  word(w); bkey(0, w); m = 0;
  for (i = 0; i < n; i++)
    for (k = 0; k < 2; k++, m++)
      {
        in[m].n = len; if (k) in[m] = in[m - 1]; else payload(in[m].d, len);
        memcpy(in[m].d + (i % 3 == 2 && len >= 16 ? 8 : 0), o[i][k], 8);
        if (i % 3 == 1 && enc) { in[m].n = 8 * (in[m].n / 8); struct pk x = in[m]; alone(0, 0, w, &x, &in[m]); if (in[m].n < 0) return; }   /* agree once scrambled */
      }
  if (m > (int)BS) m = BS;
  for (i = 0; i < m; i++) { alone(batch, enc, w, in + i, O2 + i); if (O2[i].n < 0) return; }
  for (i = 0; i < m; i++) P[i] = in[i];
  run_batch(enc, 0, 184, P, O1, m, pl(), 0, 0);
  for (i = 0; i < m; i++) if (!same(O1 + i, O2 + i)) { bad("packet %ld of %ld: next to a packet that agrees with it in hash %ld it has another outcome", i, m, t % NHASH, 0); return; }
}
static void m_term(void)
{
  u8 w[8]; int i, a, n, enc = R(2); unsigned m;
  word(w); bkey(0, w);
  if (dvbcsa_bs_batch_size() != REAL) bad("the batch size is now %ld", dvbcsa_bs_batch_size(), 0, 0, 0);
  n = packets(P, one(2) ? 24 : 184, one(2) ? -1 : (int)R(BS + 1)); m = one(2) ? 184 : limit_for(longest(P, n));
  if (one(5)) run_far(enc, 0, m, P, O1, n); else run_batch(enc, 0, m, P, O1, n, pl(), one(3) ? (int)BS : 1 + R(5), 1);
  a = n ? R(n + 1) : 0;
  run_batch(enc, 0, m, P, O2, a, pl(), 0, 0); run_batch(enc, 0, m, P + a, O2 + a, n - a, pl(), 2, 0);
  for (i = 0; i < n; i++) if (!same(O1 + i, O2 + i)) { bad("packet %ld of %ld (%ld bytes) has another outcome in a batch of %ld", i, n, P[i].n, i < a ? a : n - a); break; }
}
static void m_err(void)
{
  u8 w[8]; int i, j, k, n, single = one(5), top = single && one(2) ? 700 : 184; unsigned m;
  word(w); skey(0, w); bkey(0, w);
  n = packets(P, top, single ? 16 : -1); m = limit_for(longest(P, n)); if (single) m = 184;
  for (i = 0; i < n; i++)
    {
      Q[i] = P[i];
      if (P[i].n <= 8 || one(6)) continue;
      for (k = one(2) ? 1 : R(6); k > 0; k--) Q[i].d[8 + R(P[i].n - 8)] ^= 1 << R(8);
      if (one(4)) { j = 8 + R(P[i].n - 8); k = R(P[i].n - j) + 1; fill(Q[i].d + j, k > 24 ? 24 : k); }
    }
  if (single) for (i = 0; i < n; i++) { run_single(0, 0, P + i, O1 + i, R(64)); run_single(0, 0, Q + i, O2 + i, R(64)); }
  else { run_batch(0, 0, m, P, O1, n, pl(), 0, 0); run_batch(0, 0, limit_for(longest(P, n)), Q, O2, n, pl(), 0, 0); }
  for (i = 0; i < n; i++)
    if (P[i].n >= 8 && !rel_damage(P[i].d, O1[i].d, Q[i].d, O2[i].d, P[i].n)) { bad("damage in packet %ld of %ld (%ld bytes) spreads", i, n, P[i].n, 0); break; }
}
static sigjmp_buf jb; static volatile int armed;
static void onabrt(int s) { if (armed) { armed = 0; siglongjmp(jb, s); } signal(s, SIG_DFL); raise(s); }
static void m_limits(void)
{
  u8 w[8]; static int init; int i, n, enc = R(2); unsigned m; static struct pk in[MAXN];
  if (!init) { init = 1; signal(SIGABRT, onabrt); signal(SIGILL, onabrt); signal(SIGTRAP, onabrt); }
  word(w); bkey(0, w);
  switch (R(6)) { case 0: m = R(260); break; case 1: m = rnd(); break; case 2: m = R(65536); break; case 3: m = (1u << R(32)) + 8 * R(25) - 8 * R(3); break; case 4: m = 256 * (1 + R(255)) + 8 * R(24); break; default: m = 8 * R(100); }
  if (m % 8 == 0 && m <= 184) m += one(2) ? 1 + R(7) : 184 + 8;
  n = packets(P, one(2) ? 40 : 184, one(2) ? -1 : (int)R(4)); memcpy(in, P, sizeof in[0] * n);
  size_t o = 0; for (i = 0; i < n; i++) { memcpy(arena + o, P[i].d, P[i].n); desc[i].data = arena + o; desc[i].len = P[i].n; o += P[i].n + R(3); }
  desc[n].data = 0; memcpy(shadow, arena, o + 512);
  armed = 1;
  if (!sigsetjmp(jb, 1)) { if (enc) dvbcsa_bs_encrypt(bk[0], desc, m); else dvbcsa_bs_decrypt(bk[0], desc, m); }
  armed = 0;
  if (memcmp(shadow, arena, o + 512)) bad("limit %ld: memory was changed (%ld packets)", m, n, 0, 0);
}
static uint64_t dg;
static void digest(const struct pk *p, int n) { int i, j; for (i = 0; i < n; i++) for (j = 0; j < p[i].n; j++) dg = (dg ^ p[i].d[j]) * 0x100000001b3ull; }
static void m_conf(void)
{
  u8 w[8]; int i, a, n, enc = R(2), batch = !one(4); unsigned m, real = BS;
  dg = 0xcbf29ce484222325ull;
  word(w);
  if (one(2)) { u8 v[8]; memcpy(v, w, 8); near(v); bkey(0, v); skey(0, v); }
  if (batch)
    {
      uint64_t keep;
      bkey(0, w);
      BS = 256; n = packets(P, one(3) ? 300 : one(2) ? 8 * (1 + R(23)) : 184, -1); BS = real;
      m = one(2) ? 8 * R(24) : limit_for(longest(P, n)); keep = rs;
      for (a = 0; a < n; a += BS) run_batch(enc, 0, m, P + a, O1 + a, n - a < (int)BS ? n - a : (int)BS, pl(), 0, 0);
      rs = keep; digest(O1, n);
    }
  else
    {
      skey(0, w);
      for (i = 0; i < 16; i++) { P[i].n = one(3) ? R(700) : plen(184); payload(P[i].d, P[i].n); run_single(enc, 0, P + i, O1 + i, R(64)); }
      digest(O1, 16);
    }
  printf("%016llx\n", (unsigned long long)dg);
}

#ifdef FUZZ
/* The same cases, found by a search that the comparisons and branches the library makes guide
   (libFuzzer).  FUZZ_MODE: the mode. */
int LLVMFuzzerTestOneInput(const u8 *data, size_t size)
{
  static const char *mode;
  int i;
  if (!mode)
    {
      mode = getenv("FUZZ_MODE"); if (!mode) _exit(64);
      shm = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      arena = malloc(arena_n); shadow = malloc(arena_n); if (!arena || !shadow) _exit(70);
      memset(arena, 0, arena_n); memset(shadow, 0, arena_n);
      REAL = dvbcsa_bs_batch_size(); BS = REAL > MAXN ? MAXN : REAL;
    }
  fz = data; fn = size; rs = 1;
  if (!strcmp(mode, "enc")) m_spec(1); else if (!strcmp(mode, "dec")) m_spec(0); else if (!strcmp(mode, "cw")) m_cw();
  else if (!strcmp(mode, "rt")) m_rt(); else if (!strcmp(mode, "batch")) m_batch(); else if (!strcmp(mode, "indep")) m_indep();
  else if (!strcmp(mode, "limit")) m_limit(); else if (!strcmp(mode, "short")) m_short(); else if (!strcmp(mode, "frame")) m_frame();
  else if (!strcmp(mode, "word")) m_word(); else if (!strcmp(mode, "ctx")) m_ctx(); else if (!strcmp(mode, "place")) m_place();
  else if (!strcmp(mode, "term")) m_term(); else if (!strcmp(mode, "err")) m_err(); else if (!strcmp(mode, "limits")) m_limits(); else _exit(64);
  for (i = 0; i < 64; i++) { sfree(i); bfree(i); }
  if (shm->msg[0]) { FILE *f = fopen(getenv("FUZZ_OUT"), "w"); if (f) { fputs((char *)shm->msg, f); fclose(f); } f = fopen("crash-input", "w"); if (f) { fwrite(data, 1, size, f); fclose(f); } _exit(1); }
  return 0;
}
#else
int main(int argc, char **argv)
{
  if (argc < 6) return 64;
  const char *mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long first = atol(argv[3]), last = atol(argv[4]); int secs = atoi(argv[5]);
  shm = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shm == MAP_FAILED) return 71;
  time_t t0 = time(0);
  pid_t pid = fork();
  if (pid < 0) return 71;
  if (!pid)
    {
      long i;
      arena = malloc(arena_n); shadow = malloc(arena_n); if (!arena || !shadow) _exit(70);
      memset(arena, 0, arena_n); memset(shadow, 0, arena_n);
      REAL = dvbcsa_bs_batch_size();
      if (REAL < 1) { bad("batch size %ld", REAL, 0, 0, 0); _exit(0); }
      BS = REAL > MAXN ? MAXN : REAL;
      if (!strcmp(mode, "limits")) freopen("/dev/null", "w", stderr);
      for (i = first; i < last && !shm->msg[0]; i++)
        {
          shm->at = i;
          if (time(0) - t0 >= secs) break;
          rs = (seed + i) * 0x9e3779b97f4a7c15ull ^ (seed << 20); rnd();
          if (!strcmp(mode, "enc")) m_spec(1); else if (!strcmp(mode, "dec")) m_spec(0); else if (!strcmp(mode, "cw")) m_cw();
          else if (!strcmp(mode, "rt")) m_rt(); else if (!strcmp(mode, "batch")) m_batch(); else if (!strcmp(mode, "indep")) m_indep();
          else if (!strcmp(mode, "limit")) m_limit(); else if (!strcmp(mode, "short")) m_short(); else if (!strcmp(mode, "frame")) m_frame();
          else if (!strcmp(mode, "word")) m_word(); else if (!strcmp(mode, "ctx")) m_ctx(); else if (!strcmp(mode, "place")) m_place();
          else if (!strcmp(mode, "term")) m_term(); else if (!strcmp(mode, "err")) m_err(); else if (!strcmp(mode, "limits")) m_limits();
          else if (!strcmp(mode, "conf")) m_conf(); else if (!strcmp(mode, "wear")) m_wear(i);
          else if (!strcmp(mode, "aliasw")) m_alias_words(i, 0); else if (!strcmp(mode, "aliass")) m_alias_words(i, 1);
          else if (!strcmp(mode, "aliasp")) m_alias_packets(i, 1); else if (!strcmp(mode, "aliasb")) m_alias_packets(i, 0);
          else if (!strcmp(mode, "lenc")) m_length(1, i); else if (!strcmp(mode, "ldec")) m_length(0, i); else if (!strcmp(mode, "lrt")) m_length(2, i);
          else if (!strcmp(mode, "lshort")) m_length(3, i); else if (!strcmp(mode, "lerr")) m_length(4, i);
          else if (!strcmp(mode, "threads")) m_threads(i);
          else if (!strcmp(mode, "long")) { long_secs = secs; m_long(i); } else _exit(64);
          shm->done++;
        }
      fflush(stdout);
      _exit(0);
    }
  int st; long at = -1; time_t moved = t0;
  while (waitpid(pid, &st, WNOHANG) == 0)
    {
      if (shm->at != at || strcmp(mode, "limits")) { at = shm->at; moved = time(0); }
      if (time(0) - t0 > secs + 60 || time(0) - moved > 20) { kill(pid, SIGKILL); waitpid(pid, &st, 0); printf("GAVE UP %ld\n", shm->at); return 4; }
      usleep(5000);
    }
  if (WIFEXITED(st) && WEXITSTATUS(st) && !strcmp(mode, "limits")) { printf("OK %ld\n", shm->done); return 0; }   /* refused by ending the process */
  if (WIFEXITED(st) && WEXITSTATUS(st)) { printf("ERROR %d in case %ld\n", WEXITSTATUS(st), shm->at); return WEXITSTATUS(st); }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { printf("KILLED %ld\n", shm->at); return 4; }
  if (WIFSIGNALED(st)) { printf("BAD %ld the library did not complete the call: signal %d\n", shm->at, WTERMSIG(st)); return 1; }
  if (shm->msg[0]) { printf("BAD %ld %s\n", shm->at, (char *)shm->msg); return 1; }
  printf("OK %ld\n", shm->done);
  return 0;
}
#endif
