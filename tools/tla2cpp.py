#!/usr/bin/env python3
"""Translate the functional part of a TLA+ module to C++.

usage: tla2cpp.py MODULE.tla OUT.hpp

SANY parses the module and exports its semantic graph as XML, so the C++ is
made from exactly what TLC evaluates.  Supported: non-recursive operator
definitions over integers, booleans, sequences (tuples and [i \\in 1..n |-> e])
and records; IF, LET (with operators), LAMBDA, bounded CHOOSE, quantifiers over
intervals, FoldLeft, the sequence and arithmetic operators and the bitwise ones.
Anything else is an error, never a guess.
"""
import os, subprocess, sys, tempfile, shutil
import xml.etree.ElementTree as ET

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

PRELUDE = r'''// Generated by tools/tla2cpp.py from %s: do not edit.
#pragma once
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <utility>
#include <type_traits>
namespace %s {
[[noreturn]] inline void bad(const char *w) { fprintf(stderr, "spec evaluation error: %%s\n", w); exit(70); }
// A sequence is an immutable value: a length and a shared, growing buffer.
// Appending to the longest owner extends the buffer in place (like a Go slice),
// so FoldLeft with Append is linear.  Short integer sequences stay inline.
template <class T> struct Buf { int refs; std::vector<T> v; };
template <class T> struct Seq {
  static constexpr int N = std::is_same_v<T, int> ? 12 : 0;
  int n; Buf<T> *b; T inl[N ? N : 1];
  Seq() : n(0), b(nullptr) {}
  explicit Seq(int k) : n(k), b(nullptr) { if (k > N) { b = new Buf<T>{1, {}}; b->v.resize(k); } }
  Seq(const Seq &o) : n(o.n), b(o.b) { if (b) b->refs++; else for (int i = 0; i < n; i++) inl[i] = o.inl[i]; }
  Seq(Seq &&o) : n(o.n), b(o.b) { if (!b) for (int i = 0; i < n; i++) inl[i] = o.inl[i]; o.b = nullptr; o.n = 0; }
  Seq &operator=(const Seq &o) { if (this != &o) { Seq t(o); *this = std::move(t); } return *this; }
  Seq &operator=(Seq &&o) { std::swap(n, o.n); std::swap(b, o.b); if (!b) for (int i = 0; i < n; i++) inl[i] = o.inl[i]; return *this; }
  ~Seq() { if (b && !--b->refs) delete b; }
  int size() const { return n; }
  T &raw(int i) { return b ? b->v[i] : inl[i]; }              // only while under construction
  const T &raw(int i) const { return b ? b->v[i] : inl[i]; }
  const T &operator()(int i) const { if (i < 1 || i > n) bad("index outside domain"); return raw(i - 1); }
  Seq grown(const T *x, int k) const {                         // this with k more elements
    if (n + k <= N) { Seq s(*this); for (int i = 0; i < k; i++) s.inl[n + i] = x[i]; s.n = n + k; return s; }
    Seq s;
    if (b && (int)b->v.size() == n) { s.b = b; b->refs++; }
    else { s.b = new Buf<T>{1, {}}; s.b->v.reserve(2 * (n + k)); for (int i = 0; i < n; i++) s.b->v.push_back(raw(i)); }
    for (int i = 0; i < k; i++) s.b->v.push_back(x[i]);
    s.n = n + k; return s;
  }
};
template <class T> bool operator==(const Seq<T> &a, const Seq<T> &b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); i++) if (!(a.raw(i) == b.raw(i))) return false;
  return true;
}
struct Range { int lo, hi; };
template <class F> auto mkfun(Range r, F f) {
  using T = std::decay_t<decltype(f(1))>;
  if (r.lo != 1) bad("function domain is not 1..n");
  Seq<T> s(r.hi < 0 ? 0 : r.hi);
  for (int i = 0; i < r.hi; i++) s.raw(i) = f(i + 1);
  return s;
}
template <class T, class... R> auto mktuple(T a, R... r) {
  Seq<T> s(1 + (int)sizeof...(r)); int i = 0; s.raw(i++) = a; ((s.raw(i++) = r), ...); return s;
}
template <class T> Seq<T> cat(const Seq<T> &a, const Seq<T> &b) {
  if (!b.size()) return a;
  std::vector<T> t; t.reserve(b.size());
  for (int i = 0; i < b.size(); i++) t.push_back(b.raw(i));
  return a.grown(t.data(), b.size());
}
template <class T> Seq<T> append(const Seq<T> &a, const T &x) { T t = x; return a.grown(&t, 1); }
template <class T> Seq<T> subseq(const Seq<T> &a, int m, int n) {
  if (n < m) return Seq<T>();
  if (m < 1 || n > a.size()) bad("SubSeq outside domain");
  Seq<T> s(n - m + 1);
  for (int i = m; i <= n; i++) s.raw(i - m) = a.raw(i - 1);
  return s;
}
template <class F, class A, class T> A foldl(F f, A acc, const Seq<T> &s) {
  for (int i = 0; i < s.size(); i++) acc = f(acc, s.raw(i));
  return acc;
}
template <class F> int choose(Range r, F f) {
  for (int i = r.lo; i <= r.hi; i++) if (f(i)) return i;
  bad("CHOOSE of nothing");
}
template <class F> bool forall(Range r, F f) { for (int i = r.lo; i <= r.hi; i++) if (!f(i)) return false; return true; }
template <class F> bool exists(Range r, F f) { for (int i = r.lo; i <= r.hi; i++) if (f(i)) return true; return false; }
inline int fdiv(int a, int b) { if (b <= 0) bad("divisor"); int q = a / b; return a %% b < 0 ? q - 1 : q; }
inline int fmod_(int a, int b) { if (b <= 0) bad("divisor"); int m = a %% b; return m < 0 ? m + b : m; }
'''

class Tr:
    def __init__(self, path):
        self.mod = os.path.splitext(os.path.basename(path))[0]
        d = tempfile.mkdtemp(prefix="tla2cpp.")
        try:
            src = os.path.dirname(os.path.abspath(path))
            for f in os.listdir(src):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(src, f), d)
            r = subprocess.run(["java", "-cp", JARS, "tla2sany.xml.XMLExporter", "-o", self.mod + ".tla"],
                               cwd=d, capture_output=True, text=True)
            if r.returncode or not r.stdout.strip():
                sys.exit(f"SANY failed on {path}:\n{r.stdout[-2000:]}{r.stderr[-2000:]}")
            root = ET.fromstring(r.stdout[r.stdout.index("<?xml"):])
        finally:
            shutil.rmtree(d)
        self.ctx = {}
        for e in root.find("context"):
            self.ctx[e.find("UID").text] = [c for c in e if c.tag != "UID"][0]
        # the module itself and those it extends that lie beside it, in order
        own = {f[:-4] for f in os.listdir(src) if f.endswith(".tla")}
        used = {self.fileof(x) for x in self.ctx.values()} & own
        self.mods = sorted(used - {self.mod}) + [self.mod]
        self.recs = {}
        self.local = set()

    def fileof(self, n):
        f = n.find("location/filename")
        return f.text if f is not None else None

    def line(self, n):
        return int(n.find("location/line/begin").text), int(n.find("location/column/begin").text)

    def name(self, n):
        return n.find("uniquename").text

    def cname(self, s):
        return "v_" + s.replace("'", "_p").replace("!", "_")

    def params(self, d):
        ps = d.find("params")
        if ps is None:
            return []
        out = []
        for lp in ps.findall("leibnizparam"):
            ref = lp.find("FormalParamNodeRef/UID").text
            p = self.ctx[ref]
            if p.find("arity").text != "0":
                sys.exit("operator parameters are not supported: " + self.name(p))
            out.append(self.cname(self.name(p)))
        return out

    # expressions -> C++ text
    def ex(self, n):
        t = n.tag
        if t == "NumeralNode":
            return n.find("IntValue").text
        if t == "LetInNode":
            out = ["[&]{"]
            for ref in n.find("opDefs"):
                d = self.ctx[ref.find("UID").text]
                out.append(self.letdef(d))
            out.append("return %s; }()" % self.ex(n.find("body")[0]))
            return " ".join(out)
        if t == "OpApplNode":
            return self.app(n)
        sys.exit(f"unsupported node {t}")

    def letdef(self, d):
        ps = self.params(d)
        nm = self.cname(self.name(d))
        self.local.add(id(d))
        body = self.ex(d.find("body")[0])
        if ps:
            return "auto %s = [&](%s){ return %s; };" % (nm, ", ".join("const auto &" + p for p in ps), body)
        return "auto %s = %s;" % (nm, body)

    def lam(self, n):
        """OpArgNode -> C++ callable"""
        ref = n.find("argument")[0]
        d = self.ctx[ref.find("UID").text]
        ps = self.params(d)
        if self.name(d) == "LAMBDA":
            return "[&](%s){ return %s; }" % (", ".join("const auto &" + p for p in ps), self.ex(d.find("body")[0]))
        return "[&](%s){ return %s(%s); }" % (", ".join("const auto &" + p for p in ps), self.cname(self.name(d)), ", ".join(ps))

    def bound(self, n):
        b = n.find("boundSymbols")
        if len(b) != 1 or b[0].tag != "bound":
            sys.exit("only one bounded variable is supported")
        vars = b[0].findall("FormalParamNodeRef")
        if len(vars) != 1 or b[0].find("tuple") is not None:
            sys.exit("only one bounded variable is supported")
        v = self.cname(self.name(self.ctx[vars[0].find("UID").text]))
        return v, self.ex(b[0][-1])

    def rec(self, fields):
        key = tuple(sorted(fields))
        nm = "Rec_" + "_".join(key)
        self.recs[key] = nm
        return nm

    def app(self, n):
        opn = n.find("operator")[0]
        d = self.ctx[opn.find("UID").text]
        args = list(n.find("operands"))
        if opn.tag == "FormalParamNodeRef":
            if args:
                sys.exit("operator parameter application")
            return self.cname(self.name(d))
        op = self.name(d)
        if opn.tag == "UserDefinedOpKindRef" and (self.fileof(d) in self.mods or id(d) in self.local):
            a = [self.ex(x) for x in args]
            if id(d) in self.local and not a:
                return self.cname(op)
            return "%s(%s)" % (self.cname(op), ", ".join(a))
        E = self.ex
        if op == "$Tuple":
            if not args:
                sys.exit("empty tuple literal has no type")
            return "mktuple(%s)" % ", ".join(E(a) for a in args)
        if op == "$FcnConstructor":
            v, s = self.bound(n)
            return "mkfun(%s, [&](int %s){ return %s; })" % (s, v, E(args[0]))
        if op in ("$BoundedChoose", "$BoundedForall", "$BoundedExists"):
            v, s = self.bound(n)
            f = {"$BoundedChoose": "choose", "$BoundedForall": "forall", "$BoundedExists": "exists"}[op]
            return "%s(%s, [&](int %s){ return %s; })" % (f, s, v, E(args[0]))
        if op == "$FcnApply":
            return "(%s)(%s)" % (E(args[0]), E(args[1]))
        if op == "$IfThenElse":
            return "(%s ? %s : %s)" % tuple(E(a) for a in args)
        if op == "$RcdConstructor":
            f = {}
            for p in args:
                k, v = list(p.find("operands"))
                f[k.find("StringValue").text] = E(v)
            return "mk%s(%s)" % (self.rec(f), ", ".join(f[k] for k in sorted(f)))
        if op == "$RcdSelect":
            return "(%s).%s" % (E(args[0]), args[1].find("StringValue").text)
        if op == "$ConjList":
            return "(" + " && ".join(E(a) for a in args) + ")"
        if op == "$DisjList":
            return "(" + " || ".join(E(a) for a in args) + ")"
        if op == "FoldLeft":
            return "foldl(%s, %s, %s)" % (self.lam(args[0]), E(args[1]), E(args[2]))
        infix = {"+": "+", "-": "-", "*": "*", "=": "==", "/=": "!=", "#": "!=", "<": "<", ">": ">",
                 "\\leq": "<=", "<=": "<=", "=<": "<=", "\\geq": ">=", ">=": ">=", "^^": "^", "&": "&", "|": "|",
                 "\\land": "&&", "/\\": "&&", "\\lor": "||", "\\/": "||"}
        if op in infix and len(args) == 2:
            return "(%s %s %s)" % (E(args[0]), infix[op], E(args[1]))
        call = {"\\div": "fdiv", "%": "fmod_", "\\o": "cat", "Append": "append", "SubSeq": "subseq"}
        if op in call:
            return "%s(%s)" % (call[op], ", ".join(E(a) for a in args))
        if op == "=>":
            return "(!%s || %s)" % (E(args[0]), E(args[1]))
        if op in ("TRUE", "FALSE"):
            return op.lower()
        if op == "..":
            return "Range{%s, %s}" % (E(args[0]), E(args[1]))
        if op == "Len":
            return "(%s).size()" % E(args[0])
        if op in ("\\lnot", "~", "\\neg"):
            return "(!%s)" % E(args[0])
        sys.exit(f"{self.mod}: unsupported operator {op} at {self.line(n)}")

    def run(self):
        defs = [d for d in self.ctx.values()
                if d.tag == "UserDefinedOpKind" and self.fileof(d) in self.mods
                and d.find("originallyDefinedInModule") is not None and self.toplevel(d)]
        defs.sort(key=lambda d: (self.mods.index(self.fileof(d)), self.line(d)))
        body = []
        for d in defs:
            ps = self.params(d)
            nm = self.cname(self.name(d))
            e = self.ex(d.find("body")[0])
            if ps:
                body.append("inline auto %s(%s) { return %s; }" % (nm, ", ".join("const auto &" + p for p in ps), e))
            else:
                body.append("inline const auto &%s() { static const auto val = [](){ return %s; }(); return val; }" % (nm, e))
        out = [PRELUDE % (self.mod + ".tla", self.mod)]
        for key, nm in sorted(self.recs.items()):
            ts = ["T%d" % i for i in range(len(key))]
            out.append("template <%s> struct %s { %s };" % (", ".join("class " + t for t in ts), nm,
                       " ".join("%s %s;" % (t, k) for t, k in zip(ts, key))))
            out.append("template <%s> auto mk%s(%s) { return %s<%s>{%s}; }" % (
                ", ".join("class " + t for t in ts), nm, ", ".join("%s %s" % (t, "a" + k) for t, k in zip(ts, key)),
                nm, ", ".join(ts), ", ".join("std::move(a%s)" % k for k in key)))
        return "\n".join(out) + "\n" + "\n".join(body) + "\n} // namespace\n"

    def toplevel(self, d):
        if self.name(d) == "LAMBDA":
            return False
        if not hasattr(self, "lets"):
            self.lets = set()
            for x in self.ctx.values():
                for l in x.iter("LetInNode"):
                    for r in l.find("opDefs"):
                        self.lets.add(id(self.ctx[r.find("UID").text]))
        return id(d) not in self.lets

if __name__ == "__main__":
    if len(sys.argv) != 3:
        sys.exit(__doc__)
    text = Tr(sys.argv[1]).run()
    with open(sys.argv[2], "w") as f:
        f.write(text)
