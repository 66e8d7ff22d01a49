"""C11: schedules of real threads decided by the check; programs and schedules from CsaConc."""
import json, os, re, subprocess
import vlib, engine
from vlib import Broken, V, pmap, rng
from gen import cw, near, payload, hx
from engine import model, printed

WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"
INSTR = ["-O1", "-D_XOPEN_SOURCE=600"]

def build(name, instrumented):
    """The concurrency executor for a variant."""
    v = V[name]
    p = os.path.join(vlib.scratch(), "build", f"conc_{name}_{'i' if instrumented else 'f'}")
    cc = "clang" if instrumented else "gcc"
    if instrumented:
        try:
            objs = vlib.build_objs(name, INSTR + ["-fsanitize-coverage=bb,no-prune,trace-pc,trace-loads,trace-stores"], ".conc", cc="clang")
        except Broken:                                  # something only gcc compiles: basic blocks only
            objs = vlib.build_objs(name, INSTR + ["-fsanitize-coverage=trace-pc"], ".concg", cc="gcc")
    else:
        objs = vlib.build_objs(name)
    r = vlib.run([cc, "-O2", "-w", "-D_GNU_SOURCE", "-I", os.path.join(vlib.REPO, "src"), os.path.join(vlib.VERIF, "harness", "conc.c")]
                 + objs + [WRAP, "-lpthread", "-lm", "-o", p])
    if r.returncode:
        raise Broken(f"cannot build the concurrency executor for {name}:\n{r.stderr[-1500:]}")
    return p

class Prog:
    """Payloads and calls: thread 0 before, 1.. concurrently, 99 after."""
    def __init__(self, r):
        self.r, self.bufs, self.calls, self.scheds = r, [], [], []
    def buf(self, data):
        self.bufs.append(data); return len(self.bufs) - 1
    def call(self, t, *w):
        self.calls.append((t, " ".join(map(str, w))))
    def key(self, h, kind, word, t=0):
        self.call(t, "alloc", h, kind); self.call(t, "set", h, hx(word))
    def op(self, t, op, h, kind, n=None, lens=None):
        r = self.r
        if kind == "s":
            self.call(t, op, h, self.buf(payload(r, n if n is not None else r.choice([8, 16, 20, 24]))))
        else:
            ls = lens or [r.choice([16, 20, 24, 8]) for _ in range(r.choice([1, 2, 3]))]
            self.call(t, "b" + op, h, max(8, (max(ls) + 7) // 8 * 8) if r.random() < .7 else r.choice([8, 16, 184]), *[self.buf(payload(r, l)) for l in ls])
    def head(self):
        return ["prog"] + [f"b {i} {hx(d)}" for i, d in enumerate(self.bufs)] + [f"call {t} {c}" for t, c in self.calls]
    def scenario(self):
        """The calls in the order of the outcome lines, in the executor's language."""
        out = ["reset"] + [f"buf {i} 0 0 {hx(d)}" for i, d in enumerate(self.bufs)]
        for t, c in sorted(self.calls, key=lambda x: x[0]):
            w = c.split()
            if w[0] == "set":
                w.append("0")
            if w[0] in ("benc", "bdec"):
                w.insert(3, "0")
            out.append(" ".join(w))
        return out

def families(r):
    """Programs of two or three threads: what may be shared, and what may not matter."""
    ps = []
    def new():
        p = Prog(r); ps.append(p); return p
    enc = lambda: r.choice(["enc", "dec"])
    for kind in "sb":
        p = new(); p.key(0, kind, cw(r)); p.op(1, "enc", 0, kind); p.op(2, "dec", 0, kind)               # one shared context
        p = new(); p.key(0, kind, cw(r)); o = enc(); p.op(1, o, 0, kind); p.op(2, o, 0, kind); p.op(99, o, 0, kind)
        p = new(); p.key(0, kind, cw(r)); p.key(1, kind, cw(r)); o = enc(); p.op(1, o, 0, kind); p.op(2, o, 1, kind)
        p = new(); a = cw(r); p.call(0, "alloc", 0, kind); p.call(0, "alloc", 1, kind); p.call(1, "set", 0, hx(a)); p.call(2, "set", 1, hx(near(r, a)))
        p.op(99, enc(), 0, kind); p.op(99, enc(), 1, kind)                                                 # set while another is set
        p = new(); p.key(0, kind, cw(r)); p.call(0, "alloc", 1, kind); p.call(1, "set", 1, hx(cw(r))); p.op(2, enc(), 0, kind); p.op(99, enc(), 1, kind)
        p = new(); p.key(0, kind, cw(r)); p.key(1, kind, cw(r)); p.call(1, "set", 1, hx(cw(r))); p.op(1, enc(), 1, kind); p.op(2, enc(), 0, kind); p.op(2, enc(), 0, kind)
        p = new()                                                                                        # whole lives, first calls of the process
        for t in (1, 2):
            p.key(t, kind, cw(r), t); p.op(t, enc(), t, kind); p.call(t, "free", t)
        p = new(); p.key(0, kind, cw(r))
        for t in (1, 2, 3):
            p.op(t, enc(), 0, kind)
        p = new(); p.key(0, kind, cw(r)); p.op(1, enc(), 0, kind, lens=[r.randint(1, 7), 9], n=r.randint(1, 7)); p.op(2, enc(), 0, kind)
        p = new(); p.key(0, kind, cw(r)); p.key(1, kind, cw(r)); p.op(1, enc(), 0, kind); p.call(2, "free", 1); p.key(2, kind, cw(r), 2); p.op(2, enc(), 2, kind)
    for kinds in ("ss", "bb", "sb", "sss", "bbb"):                                                       # whole lives, after contexts came and went
        p = new()
        for i, kd in enumerate(sorted(set(kinds) | ({kinds[0]} if r.random() < .5 else set()))):
            for j in range(r.choice([1, 2])):
                p.key(40 + 4 * i + j, kd, cw(r))
            p.op(0, enc(), 40 + 4 * i, kd)
            for j in range(sum(1 for x in p.calls if x[1].startswith("alloc") and 40 + 4 * i <= int(x[1].split()[1]) < 44 + 4 * i)):
                p.call(0, "free", 40 + 4 * i + j)
        for t, kd in enumerate(kinds, 1):
            p.key(t, kd, cw(r), t); p.op(t, enc(), t, kd); p.call(t, "free", t)
            if r.random() < .5:
                p.key(10 + t, kd, cw(r), t); p.op(t, enc(), 10 + t, kd)
        p.key(60, kinds[0], cw(r), 99); p.op(99, enc(), 60, kinds[0])
    for kind, n in (("s", r.randint(14, 19)), ("b", r.randint(14, 19)), ("s", r.randint(33, 36)), ("s", 70)):   # many threads
        T = range(1, n)
        p = new(); p.key(0, kind, cw(r)); p.key(200, kind, cw(r))
        for t in T:
            p.op(t, enc(), 0, kind)
        p = new()
        for t in T:
            p.key(t, kind, cw(r))
        for t in T:
            p.op(t, enc(), t, kind)
            if r.random() < .5:
                p.call(t, "set", t, hx(cw(r))); p.op(99, enc(), t, kind)
        p = new()
        for t in T:
            kd = r.choice([kind, kind, "s"]); p.key(t, kd, cw(r), t); p.op(t, enc(), t, kd); p.call(t, "free", t)
    p = new(); p.key(0, "s", cw(r)); p.key(1, "b", cw(r)); p.op(1, enc(), 0, "s"); p.op(2, enc(), 1, "b")
    p = new(); w = cw(r); p.call(0, "alloc", 0, "s"); p.call(0, "alloc", 1, "b"); p.call(1, "set", 0, hx(w)); p.call(2, "set", 1, hx(cw(r))); p.op(99, enc(), 0, "s"); p.op(99, enc(), 1, "b")
    p = new(); p.key(0, "b", cw(r)); p.call(1, "size"); p.op(2, enc(), 0, "b"); p.call(1, "size")
    # many packets, several calls
    for kind in "sb":
        p = new(); p.key(0, kind, cw(r))
        for t in (1, 2):
            for _ in range(2):
                p.op(t, enc(), 0, kind, n=r.choice([40, 100, 184]), lens=[r.choice([8, 24, 40]) for _ in range(24)])
    return ps

def wide(r, batch, kinds):
    """Programs of two threads that make the same kinds of calls: every residue, long and short
    payloads, equal payloads and words, special words, batches of every shape, many contexts.
    Memory that only a rare path shares shows up in the counting run."""
    ps = []
    def new():
        p = Prog(r); p.wide = True; ps.append(p); return p
    def both(p, f):
        for t in (1, 2):
            f(p, t)
    ops = ("enc", "dec")
    def data(n, seed):
        q = rng("C11", "wide", seed, n); return payload(q, n)
    def singles(h, lens, same, op=None):
        p = new(); p.key(0, "s", cw(r))
        if h:
            p.key(1, "s", cw(r)); p.key(2, "s", cw(r))
        o = [op or r.choice(ops) for _ in lens]
        for t in (1, 2):
            for j, n in enumerate(lens):
                p.call(t, o[j], t if h else 0, p.buf(data(n, (len(ps), j, 0 if same else t))))
    for op in ops if "s" in kinds else ():
        singles(0, range(0, 25), False, op); singles(1, range(25, 48), True, op)
    for n in (64, 100, 184, 185, 188, 191, 255, 256, 376, 511, 520, 1024, 1031, 1316, 1500, 2000):
        for op in ops if "s" in kinds else ():
            singles(r.randrange(2), [n], r.random() < .3, op)
    from gen import cw_special
    sp = cw_special()
    for kind in kinds:
        def one(p, t, w, kind=kind):
            p.call(t, "set", t, hx(w)); p.op(t, r.choice(ops), t, kind, n=16, lens=[16])
        for ws in (sp[:11], sp[11:26] if kind == "s" else sp[11:14], [cw(r) for _ in range(4)]):
            p = new(); p.call(0, "alloc", 1, kind); p.call(0, "alloc", 2, kind)
            both(p, lambda p, t: [one(p, t, w) for w in ws])
        p = new(); p.call(0, "alloc", 1, kind); p.call(0, "alloc", 2, kind); w = cw(r)                   # the same word again, a near one, back
        both(p, lambda p, t: [one(p, t, x) for x in (w, w, near(rng("C11", "near"), w), w)])
        p = new()                                                                                        # many contexts at once
        def lives(p, t, kind=kind):
            n = 12 if kind == "s" else 4
            for j in range(n):
                p.key(t * 20 + j, kind, cw(r), t)
            for j in range(n):
                p.op(t, r.choice(ops), t * 20 + j, kind, n=16, lens=[16])
            for j in (range(n), reversed(range(n)))[t - 1]:
                p.call(t, "free", t * 20 + j)
            for j in range(2):
                p.key(t * 20 + j, kind, cw(r), t); p.op(t, r.choice(ops), t * 20 + j, kind, n=16, lens=[16])
        both(p, lives)
    full, l = batch, 24 if batch <= 64 else 16 if batch <= 128 else 8
    shapes = [(24, [8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23]), (16, [0, 1, 2, 3, 4, 5, 6, 7]), (8, [8] * 3), (32, [32, 8, 24, 3, 31]),
              (48, [15, 40, 47]), (16, [16] * min(full, 20)), (l, [l] * full), (16, [r.randint(0, 16) for _ in range(max(1, full - 1))]),
              (0, []), (184, [184]), (184, [176, 177, 100]), (16, [64, 20, 9])]
    for op in ops:
        for sh in (shapes[:5], shapes[5:6] + shapes[8:9] + shapes[11:], shapes[6:7], shapes[7:8], shapes[9:10], shapes[10:11]):
            p = new(); p.key(0, "b", cw(r)); same = r.random() < .3
            for t in (1, 2):
                for m, lens in sh:
                    p.call(t, "b" + op, 0, m, *[p.buf(data(l, (len(ps), m, j, 0 if same else t))) for j, l in enumerate(lens)])
    return ps

def from_model(r, d):
    """A behaviour of CsaConc as a program; the schedule refers to steps."""
    p = Prog(r); shared = r.choice("sb")
    p.key(0, shared, cw(r))
    progs = d["prog"] if isinstance(d["prog"], list) else [d["prog"][k] for k in sorted(d["prog"])]
    for t, calls in enumerate(progs, 1):
        own = r.choice("sb")
        if any(k[1] == 1 and k[0] != "life" for k in calls):
            p.key(t, own, cw(r))
        x = 10 * t
        for k in calls:
            if k[0] == "set":
                p.call(t, "set", t, hx(cw(r)))
            elif k[0] == "life":
                x += 1; kd = r.choice("sb"); p.key(x, kd, cw(r), t); p.op(t, "enc", x, kd); p.call(t, "free", x)
            else:
                p.op(t, k[0], 0 if k[1] == 0 else t, shared if k[1] == 0 else own)
        if any(k == ["set", 1] for k in calls):
            p.op(99, r.choice(["enc", "dec"]), t, own)
    p.op(99, "enc", 0, shared)
    p.steps, p.model = d["sched"], progs
    return p

def segments(p, r, ends):
    """Every step of the model is a stretch of the call's hooks, cut at random places."""
    cuts = {}
    for t, calls in enumerate(p.model, 1):
        real = [c for tt, c in p.calls if tt == t]
        j, prev, cs = 0, 0, []
        for k in calls:
            n = 4 if k[0] == "life" else 1                # alloc+set (2 calls), op, free
            j += n; end = ends[t][j - 1]
            a, b = sorted((r.randint(prev, end), r.randint(prev, end)))
            if k[0] == "life":
                a, b = ends[t][j - 4], ends[t][j - 3]
            cs += [a - prev, b - a, end - b]; prev = end
        cuts[t] = cs
    at = {t: 0 for t in cuts}; segs = []
    for t in p.steps:
        n = cuts[t][at[t]]; at[t] += 1
        if n:
            if segs and segs[-1][0] == t:
                segs[-1][1] += n
            else:
                segs.append([t, n])
    return ",".join(f"{t}:{n}" for t, n in segs + [[t, "*"] for t in sorted(cuts)])

def plan(p, r, info, per):
    """Schedules of a family program: one preemption everywhere, and more where memory is shared."""
    N, W, out = info["N"], info["W"], []
    ts = sorted(N)
    if getattr(p, "wide", False):
        per = per // 2 if any(W.values()) else 16
    per = max(9, 4 * per // (len(ts) + 1)) if len(ts) > 4 else per
    for a in ts:
        others = [t for t in ts if t != a]
        tail = ",".join(f"{t}:*" for t in others) + f",{a}:*"
        n = N[a]
        pts = set(range(1, n + 1)) if n <= per else set(range(r.randrange(1, n // per + 2), n + 1, n // per + 1))
        pts |= set(range(1, min(n, 30 if len(ts) <= 4 else 4))) | set(range(max(1, n - (15 if len(ts) <= 4 else 2)), n + 1))
        w = W.get(a, [])
        w = w if len(w) <= per else sorted(r.sample(w, per))
        for x in w:
            pts |= {x, min(n, x + 1)}
        out += [f"{a}:{k}," + tail for k in sorted(pts)]
        for _ in range(per // 3):
            b = r.choice(others); m = N[b]
            ca = r.choice(w) + r.randrange(2) if w and r.random() < .8 else r.randint(1, max(1, n))
            wb = W.get(b, []); q = r.random()
            cb = r.choice(wb) + r.randrange(2) if wb and q < .5 else r.choice(info["ends"][b]) + r.randrange(2) if q < .85 else r.randint(1, max(1, m))
            out.append(f"{a}:{ca},{b}:{max(1, cb)},{a}:{r.randint(1, max(1, n - ca))}," + tail if r.random() < .5 else f"{a}:{ca},{b}:{max(1, cb)}," + f"{a}:*," + tail)
    return [f"s {x}" for x in out]

def execute(exe, lines, timeout=800):
    s = vlib.newfile(".conc"); o = s + ".out"
    with open(s, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run([exe, s, o], capture_output=True, text=True, timeout=timeout)
    text = open(o).read()
    if r.returncode or not text.endswith("END\n"):
        raise Broken(f"concurrency executor failed ({r.returncode}): {text[-300:]}{r.stderr[-300:]}")
    return text

def counts(exe, ps):
    text = execute(exe, [l for p in ps for l in p.head() + ["count"]])
    out = []
    for blk in re.split(r"^P\n", text, flags=re.M)[1:]:
        d = {"N": {}, "W": {}, "ends": {}, "F": None}
        for l in blk.splitlines():
            w = l.split()
            if w[0] == "N":
                d["N"][int(w[1])] = int(w[2]); d["ends"][int(w[1])] = [int(x) for x in w[3:]]
            elif w[0] == "W":
                d["W"][int(w[1])] = [int(x) for x in w[2:]]
            elif w[0] == "F":
                d["F"] = l
        out.append(d)
    if len(out) != len(ps):
        raise Broken("concurrency executor: programs lost")
    return out

def outcomes(text):
    """[(total, [(count, schedule, lines)])] per program"""
    out = []
    for blk in re.split(r"^P\n", text, flags=re.M)[1:]:
        total, ocs = 0, []
        for l in blk.splitlines():
            if l.startswith("T "):
                total = int(l.split()[1])
            elif l.startswith("O "):
                _, n, sc = l.split(" ", 2); ocs.append((int(n), sc, []))
            elif ocs and l != "END":
                ocs[-1][2].append(l)
        out.append((total, ocs))
    return out

def files(name, items):
    """Scenario and outcome files for (program, outcome lines) pairs."""
    s = vlib.newfile(".scn"); o = s[:-4] + f".{name}.out"
    with open(s, "w") as f, open(o, "w") as g:
        for p, ls in items:
            f.write("\n".join(p.scenario()) + "\n"); g.write("Z\n" + "\n".join(ls) + "\n")
        g.write("END\n")
    return s, o

def check(name, items, table={}):
    """Complaints about each (program, outcome)."""
    res = []
    qs = {}
    for p, ls in items:
        s, o = files(name, [(p, ls)])
        if not any(l.startswith("F ") for l in ls):
            t = s[:-4] + ".q"; vlib.judge(s, o, "queries:same", t)
            qs.update((q, 1) for q in open(t).read().split("\n") if q)
        res.append((s, o))
    pairs, rf = engine.references(list(qs), name, "fresh") if qs else ([], None)
    if pairs is None:
        return [["a single operation in a fresh process does not complete"]] + [[] for _ in items[1:]], res
    t = vlib.newfile(".table")
    with open(t, "w") as f:
        f.writelines(f"{q} {a}\n" for q, a in pairs)
    out = []
    for (s, o), (p, ls) in zip(res, items):
        f = [l for l in ls if l.startswith("F ")]
        out.append([f"the execution did not complete: {f[0]}"] if f else vlib.judge(s, o, "ref:same", t)[0])
    return out, res

def run_variant(chk, name, kind, ps, sched_lines):
    """sched_lines: lines per program.  Judges all outcomes; returns one good pair per program."""
    exe = build(name, kind == "i")
    def go(part):
        lines = []
        for p, sl in part:
            lines += p.head() + (["count"] if kind == "i" else []) + sl + ["show"]
        return [(p, t, oc) for (p, sl), (t, oc) in zip(part, outcomes(execute(exe, lines)))]
    work = list(zip(ps, sched_lines)); n = max(1, min(4 if kind == "i" else 1, len(work)))
    done = [x for part in pmap(go, [work[i::n] for i in range(n)], n) for x in part]
    items = [(p, ls) for p, t, oc in done for c, sc, ls in oc]
    info = [(c, sc, t) for p, t, oc in done for c, sc, ls in oc]
    bads, fs = check(name, items)
    key = "schedules_replayed" if kind == "i" else "free_runs"
    chk.count(**{key: sum(t for p, t, oc in done), "programs": len(ps), "distinct_outcomes": len(items)})
    with chk.lock:
        chk.cov.setdefault("configurations", [])
        if name not in chk.cov["configurations"]:
            chk.cov["configurations"].append(name)
    for (p, ls), (c, sc, t), bad, (s, o) in zip(items, info, bads, fs):
        if not bad:
            continue
        # again, the same schedule
        again = p.head() + (["count", sc, sc, sc] if sc.startswith("s ") else ["f 500"]) + ["show"]
        t2, oc2 = outcomes(execute(exe, again))[0]
        b2, _ = check(name, [(p, l2) for _, _, l2 in oc2])
        if not any(b2) and any(l.startswith("F ") for l in ls):
            continue                                     # killed by something else
        if not any(b2) and sc.startswith("s "):
            raise Broken(f"{name}: outcome of schedule {sc} not repeatable: {bad[0]}")
        rep = vlib.newfile(".prog")
        with open(rep, "w") as f:
            f.write("\n".join(p.head() + ["count", sc if sc.startswith("s ") else "f 500", "show"]) + "\n")
        chk.bad(f"{name}: under schedule [{sc}] ({c} of {t} schedules): {bad[0]}", [rep, s, o])
    return done

def C11(chk):
    r = rng("C11")
    thorough = vlib.TIER == "thorough"
    names = ["default", "uint32", "sse2", "avx2", "mmx"] + (["ssse3", "default-altsbox", "sse2-altsbox", "avx2-altsbox"] if thorough else [])
    per = 1500 if thorough else 220
    got = {}
    emit = [(r"VIEW NoHistory\n", ""), (r"CHECK_DEADLOCK", "ACTION_CONSTRAINT EmitDone\nCHECK_DEADLOCK")]
    def m_all(): model(chk, "CsaConc", "CsaConc", workers=3 if not thorough else 6)
    def m_warm(): model(chk, "CsaConc", "CsaConc", workers=1, patch=[(r"Warm = FALSE", "Warm = TRUE"), (r"NCalls = 2", "NCalls = 1"), (r"Threads = {1, 2}", "Threads = {1, 2, 3}")])
    def m_emit(): got["all"] = model(chk, "CsaConc", "CsaConc", workers=1, patch=emit + [(r"NCalls = 2", "NCalls = 1")])
    def m_sim():
        text = open(os.path.join(vlib.SPEC, "CsaConc.cfg")).read().replace("Threads = {1, 2}", "Threads = {1, 2, 3}").replace("PROPERTY Refines\nVIEW NoHistory\n", "").replace("CHECK_DEADLOCK", "ACTION_CONSTRAINT EmitDone\nCHECK_DEADLOCK")
        rr = vlib.tlc("CsaConc", cfg="run", extra_files=[(text, "run.cfg")], args=["-simulate", f"num={2000 if thorough else 150}", "-depth", "40", "-seed", str(vlib.SEED + 11)])
        if "violated" in rr.out or len(printed(rr, "SCHED")) < 100:
            raise Broken("simulation of CsaConc failed:\n" + rr.out[-2000:])
        got["sim"] = rr
    faults = ["static temporaries", "tables built on first use", "context as scratch", "remembered schedule", "unprotected spare"]
    jobs = [m_all, m_warm, m_emit, m_sim] + [lambda f=f: model(chk, "CsaConc", "CsaConc", patch=[(r'Bug = ""', f'Bug = "{f}"'), (r"NCalls = 2", "NCalls = 1")], expect_ok=False) for f in faults]
    jobs += [lambda n=n: build(n, True) for n in names] + [lambda n=n: vlib.build_exec(n) for n in names] + [vlib.build_judge]
    pmap(lambda f: f(), jobs)
    if thorough:
        import props
        props.proofs(chk, "CsaThreadsProof")
        model(chk, "CsaConc", "CsaConc", workers=8, patch=[(r"Threads = {1, 2}", "Threads = {1, 2, 3}")], timeout=3000, heap="8g")
    behaviours = printed(got["all"], "SCHED") + printed(got["sim"], "SCHED")
    chk.count(model_schedules=len(behaviours))
    def variant(name):
        rr = rng("C11", name)
        fam = families(rr) + (families(rr) if thorough else []) + wide(rr, engine.real_size(name), "sb" if thorough or name in ("default", "default-altsbox", "avx2") else "b")
        bs = behaviours if name == "default" or thorough else rr.sample(behaviours, 200)
        mod = [from_model(rr, d) for d in bs]
        exe = build(name, True)
        ps = fam + mod
        cs = counts(exe, ps)
        for p, c in zip(ps, cs):
            if c["F"]:
                chk.bad(f"{name}: a thread alone does not complete its calls: {c['F']}", [])
                return []
        chk.count(shared_memory_touched=sum(1 for c in cs if any(c["W"].values())))
        lines = [plan(p, rr, c, per if not any(x in l for _, x in p.calls for l in ("benc", "bdec")) else per // 2) for p, c in zip(fam, cs)]
        lines += [["s " + segments(p, rr, c["ends"])] for p, c in zip(mod, cs[len(fam):])]
        done = run_variant(chk, name, "i", ps, lines)
        run_variant(chk, name, "f", fam, [[f"f {100 if thorough else 3 if getattr(p, 'wide', False) else 12}"] for p in fam])
        if len(chk.samples) < 6:
            chk.sample({"configuration": name, "program": fam[0].calls, "schedules": lines[0][:3] + lines[-1]})
        return [(p, oc) for p, t, oc in done if p in mod]
    many = (["default"] * 4 + ["avx2"] * 4) if not thorough else [n for n in names for _ in range(4)]
    engine.bulk(chk, "threads", many, 200, 1, [i % 4 for i in range(len(many))])
    vs = pmap(variant, names, 3)
    if chk.verd.v:
        return
    # TLC itself decides a sample of the executions
    for name, res in list(zip(names, vs))[:2]:
        pick = rng("C11", "tlc", name).sample(res, 12)
        tlc_decides(chk, name, [(p, oc[0][2]) for p, oc in pick])

def tlc_decides(chk, name, items):
    s, o = files(name, items)
    t = s[:-4] + ".q"; vlib.judge(s, o, "queries:same", t)
    pairs, _ = engine.references([q for q in open(t).read().split("\n") if q], name, "fresh")
    table = dict(pairs); ev = engine.events(s, o, True); size = engine.real_size(name)
    ok, r, m = engine.tlc_trace(ev, "Ref", "Same", size, table)
    chk.add_states(r)
    if not ok:
        e = ev[m] if m < len(ev) else {}
        chk.bad(f"{name}: TLC rejects the recorded concurrent execution at event {m + 1}: {json.dumps(e)[:200]}", [s, o]); return
    chk.traces += len(items); chk.count(trace_events=len(ev))
    bad, i = engine.corrupt(ev, rng("C11", "corrupt", name))
    ok, r, m = engine.tlc_trace(bad, "Ref", "Same", size, table)
    if ok or m != i:
        raise Broken("self-test: a corrupted trace was accepted")
    chk.count(corrupted_traces_rejected=1)
