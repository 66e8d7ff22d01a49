// The specification's operators (translated) for bulk.c.
#include "CsaRel.hpp"
using namespace CsaRel;
static Seq<int> seq(const unsigned char *p, int n) { Seq<int> s(n); for (int i = 0; i < n; i++) s.raw(i) = p[i]; return s; }
extern "C" int spec_scramble(int enc, const unsigned char *cw, const unsigned char *in, unsigned char *out, int n)
{
  auto o = enc ? v_Scramble(seq(cw, 8), seq(in, n)) : v_Descramble(seq(cw, 8), seq(in, n));
  for (int i = 0; i < n; i++) out[i] = o.raw(i);
  return 0;
}
extern "C" int rel_damage(const unsigned char *s1, const unsigned char *p1, const unsigned char *s2, const unsigned char *p2, int n)
{
  return v_DamageLocal(seq(s1, n), seq(p1, n), seq(s2, n), seq(p2, n));
}
