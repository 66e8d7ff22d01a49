// Very long payloads through the single packet interface, decided block by block with
// the operators of spec/CSA.tla.
//   huge enc|dec LENGTH SEED CHECK LIMIT
// The payload is a function of the seed.  The first CHECK bytes of the outcome (or all)
// are compared: block j of the clear payload is the decryption of block j of the unmasked
// payload, XORed with block j+1 of it unless it is the last (CSA!Descramble unrolled;
// CsaVectors!Streamed).  Since Descramble and Scramble are inverse to each other the same
// comparison decides encryption.  Gives up (exit 4) after LIMIT seconds in the library.
#include "CsaRel.hpp"
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <csignal>
#include <ctime>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <dvbcsa/dvbcsa.h>
}
using namespace CsaRel;
static uint64_t seed;
static uint64_t word(uint64_t i) { uint64_t z = seed + (i + 1) * 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned char orig(uint64_t i) { return word(i / 8) >> (8 * (i % 8)); }
int main(int argc, char **argv)
{
  if (argc < 6) return 64;
  bool enc = !strcmp(argv[1], "enc"); uint64_t n = strtoull(argv[2], 0, 10), check = strtoull(argv[4], 0, 10); int limit = atoi(argv[5]);
  seed = strtoull(argv[3], 0, 10);
  if (check > n) check = n;
  size_t page = 4096, len = n + 64;
  unsigned char *p = (unsigned char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return 69;
  for (uint64_t i = 0; i + 8 <= n; i += 8) { uint64_t w = word(i / 8); memcpy(p + i, &w, 8); }
  for (uint64_t i = n / 8 * 8; i < n; i++) p[i] = orig(i);
  memset(p + n, 0x5E, len - n);
  unsigned char cw[8]; uint64_t c = word(~0ull / 3); memcpy(cw, &c, 8);
  time_t t0 = time(0);
  pid_t pid = fork();
  if (pid < 0) return 71;
  if (!pid)
    {
      struct dvbcsa_key_s *k = dvbcsa_key_alloc(); if (!k) _exit(72);
      dvbcsa_key_set(cw, k);
      if (enc) dvbcsa_encrypt(k, p, n); else dvbcsa_decrypt(k, p, n);
      _exit(0);
    }
  // S: scrambled, P: clear
  auto S = [&](uint64_t i) { return enc ? p[i] : orig(i); };
  auto P = [&](uint64_t i) { return enc ? orig(i) : p[i]; };
  uint64_t blocks = n / 8;
  // the first block of the first `check` bytes that differs from the specification, or -1
  auto differs = [&](bool all) -> long long {
    Seq<int> w(8), iv(8);
    for (int i = 0; i < 8; i++) { w.raw(i) = cw[i]; iv.raw(i) = S(i); }
    auto kk = v_KeySchedule(w); auto s = v_StreamInit(w, iv);
    Seq<int> cur(8), nxt(8);
    for (int i = 0; i < 8; i++) cur.raw(i) = S(i);
    for (uint64_t j = 0; j < blocks && 8 * j < check; j++)
      {
        auto d = v_BlockDecrypt(kk, cur);
        if (j + 1 < blocks)
          {
            nxt = Seq<int>(8);
            for (int i = 0; i < 8; i++) { auto g = v_StreamGenByte(s); s = g.st; nxt.raw(i) = S(8 * j + 8 + i) ^ g.byte; }
            d = v_XorSeq(d, nxt);
          }
        for (int i = 0; i < 8; i++)
          if (d.raw(i) != P(8 * j + i)) return j;
        cur = nxt;
      }
    if (all)
      for (uint64_t i = 8 * blocks; i < n; i++) { auto g = v_StreamGenByte(s); s = g.st; if ((S(i) ^ g.byte) != P(i)) return blocks; }
    return -1;
  };
  int st;
  time_t looked = t0;
  while (waitpid(pid, &st, WNOHANG) == 0)
    {
      if (time(0) - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); puts("GAVE UP"); return 4; }
      // once the looked-at part of a longer payload is what it must become, the rest need not be waited for
      if (!enc && check < n && time(0) - looked > 2)
        {
          looked = time(0);
          if (differs(false) < 0) { kill(pid, SIGKILL); waitpid(pid, &st, 0); printf("OK %llu bytes checked while in progress\n", (unsigned long long)check); return 0; }
        }
      usleep(20000);
    }
  if (!WIFEXITED(st)) { printf("BAD the library did not complete the call: signal %d\n", WTERMSIG(st)); return 1; }
  if (WEXITSTATUS(st)) return WEXITSTATUS(st);
  long long at = differs(check == n);
  if (at >= 0) { printf("BAD %s of %llu bytes differs from the specification in block %lld\n", argv[1], (unsigned long long)n, at); return 1; }
  for (size_t i = n; i < len; i++) if (p[i] != 0x5E) { puts("BAD bytes after the payload changed"); return 1; }
  printf("OK %llu bytes checked\n", (unsigned long long)check);
  return 0;
}
