// Compares what the executor recorded with what the specification says.
//   judge MODE SCENARIO OUTCOME FLAGS [TABLE]
// MODE  spec            the cipher is spec/CSA.tla (translated)
//       ref:same|scalar the cipher is an uninterpreted function given by TABLE
//       queries:same|scalar   write the arguments at which TABLE is needed
//       none            outcomes are not judged, only crashes, limits and side effects
//       rel             only the relations of spec/CsaRel.tla, named by lines
//                       "#rel NAME i j" (i, j: packets counted since the last reset)
//                       and, per packet, those of property C07
// FLAGS comma-separated kinds of side-effect reports ('!' lines) that count, or - or all
// The bookkeeping below is that of spec/CsaLib.tla: a context holds its last control
// word, an operation changes the named payloads and nothing else.
#include "CsaRel.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
using namespace std;
typedef string Bytes;
static string mode, flags, refkind;
static long nbad;
static map<string, long> counts;
static unordered_map<string, string> table;
static unordered_set<string> queried;
static ofstream qout;
static long lineno;
static string cur;

static void bad(const string &s) {
  if (nbad++ < 50) cout << "BAD line " << lineno << " [" << cur.substr(0, 100) << "] " << s << "\n";
}
static CsaRel::Seq<int> seq(const Bytes &b) { CsaRel::Seq<int> s((int)b.size()); for (size_t i = 0; i < b.size(); i++) s.raw(i) = (unsigned char)b[i]; return s; }
static Bytes bytes(const CsaRel::Seq<int> &s) { Bytes b(s.size(), 0); for (int i = 0; i < s.size(); i++) b[i] = (char)s.raw(i); return b; }
static Bytes unhex(const string &h) { Bytes b; if (h == "-") return b; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < h.size(); i += 2) b += (char)(v(h[i]) * 16 + v(h[i + 1])); return b; }
static string hex(const Bytes &b) { string s; if (b.empty()) return "-"; for (unsigned char c : b) { s += "0123456789abcdef"[c >> 4]; s += "0123456789abcdef"[c & 15]; } return s; }

static bool ask(const string &key, Bytes &out) {
  if (mode == "queries") { if (queried.insert(key).second) qout << key << "\n"; return false; }
  auto it = table.find(key);
  if (it == table.end()) { cerr << "no reference for " << key.substr(0, 80) << "\n"; exit(70); }
  out = unhex(it->second); return true;
}
static unordered_map<string, Bytes> memo;
// expected result for one packet; false if unknown (queries mode)
static bool expect(bool batch, bool enc, const Bytes &cw, unsigned maxlen, const Bytes &in, Bytes &out) {
  size_t n = batch ? min<size_t>(in.size(), maxlen) : in.size();
  if (mode == "spec") {
    string key = string(enc ? "e" : "d") + cw + in.substr(0, n);
    auto it = memo.find(key);
    if (it == memo.end()) {
      auto k = seq(cw); auto d = seq(in.substr(0, n));
      if (memo.size() > 20000) memo.clear();
      it = memo.emplace(key, bytes(enc ? CsaRel::v_Scramble(k, d) : CsaRel::v_Descramble(k, d))).first;
      counts["spec_evaluations"]++;
    }
    out = it->second + in.substr(n); return true;
  }
  if (batch && refkind == "full") {
    Bytes o;
    if (!ask("b " + string(enc ? "e " : "d ") + hex(cw) + " 184 " + hex(in.substr(0, n)), o)) return false;
    out = o + in.substr(n); return true;
  }
  if (batch && refkind == "same")
    return ask("b " + string(enc ? "e " : "d ") + hex(cw) + " " + to_string(maxlen) + " " + hex(in), out);
  Bytes o;
  if (!ask("s " + string(enc ? "e " : "d ") + hex(cw) + " - " + hex(in.substr(0, n)), o)) return false;
  out = o + in.substr(n); return true;
}
static bool counted(const string &l) {
  if (flags == "-") return false;
  if (flags == "all") return true;
  stringstream s(flags); string f;
  while (getline(s, f, ',')) if (l.compare(2, f.size(), f) == 0) return true;
  return false;
}
struct Obs { bool enc; Bytes cw, in, out; long line; };
static vector<Obs> obs;
static void decide(const string &name, size_t i, size_t j) {
  if (i >= obs.size() || j >= obs.size()) { cerr << "#rel: no such packet, line " << lineno << "\n"; exit(70); }
  const Obs &a = obs[i], &b = obs[j]; bool ok;
  counts["relations_" + name]++;
  auto A = seq(a.in), AO = seq(a.out), B = seq(b.in), BO = seq(b.out);
  if (name == "undone") ok = CsaRel::v_Undone(A, AO, B, BO);
  else if (name == "damage") ok = !a.enc && !b.enc && CsaRel::v_DamageLocal(A, AO, B, BO);
  else if (name == "change") ok = a.enc && b.enc && CsaRel::v_ChangeLocal(seq(a.cw), A, AO, B, BO);
  else if (name == "flip") ok = CsaRel::v_FlipLocal(A, AO, B, BO);
  else if (name == "prefix") ok = CsaRel::v_PrefixSame(A, AO, B, BO);
  else if (name == "equal") ok = a.in == b.in && a.out == b.out;
  else { cerr << "unknown relation " << name << "\n"; exit(70); }
  if (!ok) { ostringstream s; s << "relation " << name << " does not hold between the operations of lines " << a.line << " and " << b.line << " (length " << a.in.size() << ")"; bad(s.str()); }
}
// the processed part of a packet
static void observe(bool enc, const Bytes &cw, const Bytes &in, const Bytes &out, size_t n) {
  obs.push_back({enc, cw, in.substr(0, n), out.substr(0, n), lineno});
  counts["packets"]++; counts["bytes"] += n;
  if (in != out) counts["packets_changed"]++;
  if (in.substr(n) != out.substr(n)) bad("bytes after the limit were changed");
}
static void c07(const Obs &o) {
  auto A = seq(o.in), B = seq(o.out);
  if (!CsaRel::v_ShortUntouched(A, B)) bad("a payload of fewer than 8 bytes was changed");
  if (o.in.size() >= 8 && o.in.size() % 8) {
    counts["residues"]++;
    if (!CsaRel::v_ResidueMasked(seq(o.cw), o.enc ? B : A, A, B)) bad("the residue is not masked with the keystream at its position (length " + to_string(o.in.size()) + ")");
  }
}
struct H { int st = 0; char kind = 0; Bytes cw; };   // 0 none, 1 allocated, 2 set
static ifstream of;
static bool pending = false; static string pend;
static bool readout(string &l) {                        // next outcome line, side-effect reports handled
  while (true) {
    if (pending) { l = pend; pending = false; } else if (!getline(of, l)) return false;
    if (l.empty()) continue;
    if (l[0] == '!') { counts["reports"]++; if (counted(l)) bad("side effect: " + l.substr(2)); continue; }
    if (l.compare(0, 2, "E ") == 0) { cerr << "executor: " << l << "\n"; exit(70); }
    return true;
  }
}
static vector<string> words(const string &s) { vector<string> w; size_t i = 0; while (i < s.size()) { size_t j = s.find(' ', i); if (j == string::npos) j = s.size(); if (j > i) w.push_back(s.substr(i, j - i)); i = j + 1; } return w; }
static void compare(const string &who, const Bytes &in, const Bytes &got, const Bytes &want) {
  counts["packets"]++;
  if (want != in) counts["packets_changed"]++;
  counts["bytes"] += in.size();
  if (got == want) return;
  size_t o = 0; while (o < got.size() && o < want.size() && got[o] == want[o]) o++;
  ostringstream s; s << who << " length " << in.size() << ": differs from the expected result at byte " << o << " (got " << hex(got.substr(o, 8)) << ", expected " << hex(want.substr(o, 8)) << ")";
  bad(s.str());
}
int main(int argc, char **argv) {
  if (argc < 5) return 64;
  mode = argv[1]; flags = argv[4];
  size_t c = mode.find(':'); if (c != string::npos) { refkind = mode.substr(c + 1); mode = mode.substr(0, c); }
  ifstream sf(argv[2]); of.open(argv[3]);
  if (!sf || !of) return 66;
  if (mode == "queries") qout.open(argv[5]);
  if (mode == "ref") { ifstream t(argv[5]); string l; while (getline(t, l)) { size_t p = l.rfind(' '); if (p != string::npos) table[l.substr(0, p)] = l.substr(p + 1); } }
  map<int, H> h; unordered_map<int, Bytes> buf; long bs = -1; string l, o; bool ended = false;
  map<string, set<size_t>> lens;
  while (!ended && getline(sf, l)) {
    lineno++; cur = l;
    auto w = words(l);
    if (w.size() == 4 && w[0] == "#rel") { if (mode == "rel") decide(w[1], stoul(w[2]), stoul(w[3])); continue; }
    if (w.empty() || w[0][0] == '#') continue;
    const string &k = w[0];
    if (k == "region" || k == "amode" || k == "opfail" || k == "env" || k == "fpenv" || k == "recycle" || k == "probe") continue;
    if (k == "buf") { buf[stoi(w[1])] = unhex(w[4]); continue; }
    if (!readout(o)) { bad("no outcome recorded"); break; }
    if (o[0] == 'F') { bad("the library did not complete the call: " + o); break; }
    auto r = words(o);
    if (k == "size") {
      counts["ops"]++; long n = stol(r[1]);
      if (n <= 0 || (bs >= 0 && bs != n)) bad("batch size " + r[1] + " not constant or not positive");
      bs = n;
      if (w.size() > 1 && stol(w[1]) != n) bad("batch size " + r[1] + " is not the advertised " + w[1]);
    } else if (k == "alloc") {
      counts["allocs"]++; int i = stoi(w[1]); bool okk = r[2] == "ok";
      if (!okk && w.size() < 4) bad("allocation failed without cause");
      if (w.size() >= 4) counts[okk ? "allocs_not_failed" : "allocs_failed"]++;
      h[i] = H(); if (okk) { h[i].st = 1; h[i].kind = w[2][0]; }
    } else if (k == "set") { counts["sets"]++; auto &x = h[stoi(w[1])]; x.cw = unhex(w[2]); x.st = 2; }
    else if (k == "free") { counts["frees"]++; h[stoi(w[1])] = H(); }
    else if (k == "reset") { h.clear(); buf.clear(); obs.clear(); counts["resets"]++; }
    else if (k == "enc" || k == "dec") {
      counts["ops"]++; auto &x = h[stoi(w[1])]; int i = stoi(w[2]); Bytes want;
      if (x.st != 2) { cerr << "scenario uses an unset key, line " << lineno << "\n"; return 70; }
      Bytes got = unhex(r[1]);
      if (mode == "none") counts["packets"]++;
      else if (mode == "rel") { observe(k == "enc", x.cw, buf[i], got, got.size()); if (refkind == "c07") c07(obs.back()); }
      else if (expect(false, k == "enc", x.cw, 0, buf[i], want)) compare("packet " + w[2], buf[i], got, want);
      buf[i] = got;
    } else if (k == "benc" || k == "bdec" || k == "try") {
      int a = k == "try" ? 1 : 0; bool enc = w[a][1] == 'e'; auto &x = h[stoi(w[a + 1])]; unsigned maxlen = stoul(w[a + 2]);
      size_t first = k == "try" ? 4 : 4, q = k == "try" ? 4 : 1;
      if (x.st != 2) { cerr << "scenario uses an unset key, line " << lineno << "\n"; return 70; }
      counts["ops"]++;
      bool legal = maxlen % 8 == 0 && maxlen <= 184;
      if (k == "try") {
        int code = stoi(r[2]);
        if (legal) { counts["legal_limits"]++; if (r[1] != "exit" || code) { bad("a legal limit was refused: " + o.substr(0, 40)); continue; } }
        else {
          counts["illegal_limits"]++;
          if (r[1] == "signal" && code != 6 && code != 4 && code != 5) bad("illegal limit: neither refused nor survived: " + o.substr(0, 40));
          if (r[3] != "unchanged") bad("illegal limit: memory was changed before the call was refused");
          continue;
        }
      }
      for (size_t j = first; j < w.size(); j++) {
        int i = stoi(w[j]); Bytes want, got = unhex(r[q + j - first]);
        if (mode == "none") counts["packets"]++;
        else if (mode == "rel") { observe(enc, x.cw, buf[i], got, min<size_t>(got.size(), maxlen)); if (refkind == "c07") c07(obs.back()); }
        else if (expect(true, enc, x.cw, maxlen, buf[i], want)) compare("packet " + to_string(j - first) + " of " + to_string(w.size() - first), buf[i], got, want);
        buf[i] = got;
      }
      counts["batches"]++;
      if (w.size() == first) counts["empty_batches"]++;
    } else { cerr << "unknown command " << k << "\n"; return 70; }
  }
  lineno++; cur = "end";
  if (!nbad || of.good()) { while (readout(o)) { if (o[0] == 'F') { bad("crash: " + o); break; } if (o == "END") break; } }
  for (auto &x : counts) cout << "COUNT " << x.first << " " << x.second << "\n";
  cout << "COUNT bad " << nbad << "\n";
  return nbad ? 1 : 0;
}
