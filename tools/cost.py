"""C20: work and stack of the real calls against the accounting model CsaCost."""
import json, os, subprocess
import vlib, engine
from vlib import Broken, V, pmap, rng
from engine import model
from gen import cw, near, hx

WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"
NATIVE = ["default", "uint32", "mmx", "sse2", "ssse3", "avx2"]
STACK = 256 << 10          # what an operation may need at most
GROWTH = 48 << 10          # more than small calls need: grows with something

def build(name, counting):
    v = V[name]
    p = os.path.join(vlib.scratch(), "build", f"cost_{name}_{'w' if counting else 's'}")
    cc = "clang" if counting else v.cc
    if counting:
        try:
            objs = vlib.build_objs(name, ["-O1", "-D_XOPEN_SOURCE=600", "-fsanitize-coverage=bb,no-prune,trace-pc"], ".cost", cc="clang")
        except Broken:
            objs = vlib.build_objs(name, ["-O1", "-D_XOPEN_SOURCE=600", "-fsanitize-coverage=trace-pc"], ".costg", cc="gcc"); cc = "gcc"
    else:
        objs = vlib.build_objs(name)
    r = vlib.run([cc, "-O2", "-w", "-D_GNU_SOURCE", "-I", os.path.join(vlib.REPO, "src"), os.path.join(vlib.VERIF, "harness", "cost.c")]
                 + objs + [WRAP, "-lpthread", "-lm", "-o", p])
    if r.returncode:
        raise Broken(f"cannot build the cost executor for {name}:\n{r.stderr[-1500:]}")
    return p

def measure(exe, shapes):
    """[(work, stack)] or a string; shapes are lines"""
    s = vlib.newfile(".cost"); o = s + ".out"
    with open(s, "w") as f:
        f.write("\n".join(shapes) + "\n")
    r = subprocess.run([exe, s, o], capture_output=True, text=True, timeout=600)
    ls = open(o).read().split("\n")
    if r.returncode or "END" not in ls or len(ls) != len(shapes) + 2 or any(l.startswith("E") and l != "END" for l in ls):
        raise Broken(f"cost executor failed ({r.returncode}): {r.stderr[-300:]}{ls[-3:]}")
    return [tuple(map(int, l.split()[1:])) if l[0] == "C" else l for l in ls[:len(shapes)]], s

def shape(l):
    w = l.split()
    if w[0] == "one":
        return {"op": "single", "len": int(w[2])}
    if w[0] in ("bat", "mix"):
        return {"op": "batch", "n": int(w[2]), "m8": int(w[3]) // 8}
    if w[0] == "many":
        return {"op": "set"} if w[2] == "set" else {"op": "single", "len": 24} if w[1] == "s" else {"op": "batch", "n": 1, "m8": 3}
    return {"op": "set"}

def small(size):
    out = []
    for e in ("enc", "dec"):
        out += [f"one {e} {n} {a} {n}" for n in (0, 1, 7, 8, 9, 15, 16, 24, 31, 40, 64) for a in (0, 3)]
        out += [f"bat {e} 0 {m} 8 1" for m in (0, 8, 16, 96, 184)]
        out += [f"bat {e} {n} {m} {m} {n}" for n in (1, 2, 3, 4) if n <= size for m in (8, 16, 184)]
        out += [f"bat {e} {size} {m} {m} 5" for m in (8, 184)]
    return out + ["set s 112233445566778f", "set b 112233445566778f"]

def large(r, size, thorough):
    out = []
    for e in ("enc", "dec"):
        ns = list(range(65, 600, 13)) + [184, 188, 1316, 1504, 4096, 4104, 4111, 8192, 32767, 65528, 65536, 65543, 100003, 1 << 18, (1 << 20) + 5]
        ns += [r.randint(65, 1 << r.randint(7, 20)) for _ in range(60 if thorough else 25)]
        out += [f"one {e} {n} {r.choice([0, 0, r.randrange(64)])} {r.randrange(1 << 30)}" for n in ns]
        for n in sorted({0, 1, 2, 3, size // 2, size - 1, size} | {r.randint(0, size) for _ in range(8)}):
            for m in (8, 8 * r.randint(1, 23), 184):
                out += [f"bat {e} {n} {m} {k} {r.randrange(1 << 30)}" for k in (m, 184, r.choice([0, 1, 7]), 1 << r.randint(8, 31), (1 << 32) - 1 - r.randrange(300))]
                out += [f"mix {e} {n} {m} {r.randrange(1 << 30)}" for _ in range(3)]
        out += [f"one {e} {(1 << 24) + r.randrange(9)} {r.randrange(16)} {r.randrange(99)}"]
    for k in "sb":
        ws = [bytes(8), b"\xff" * 8, bytes([0x47] * 8)] + [bytes(i == j // 8 and 1 << j % 8 for i in range(8)) for j in range(64)] + [cw(r) for _ in range(30)]
        out += [f"set {k} {hx(w)}" for w in ws] + [f"many {k} {o} {c}" for o in ("enc", "dec", "set") for c in (0, 100, 3000, 20000)]
    return out

def C20(chk):
    thorough = vlib.TIER == "thorough"
    names = NATIVE + (["default-altsbox", "sse2-altsbox", "avx2-altsbox"] if thorough else [])
    jobs = [lambda: model(chk, "CsaCost", "CsaCost", patch=[(r"MaxBlocks = 6", f"MaxBlocks = {24 if thorough else 8}"), (r"MaxPackets = 4", f"MaxPackets = {12 if thorough else 5}")])]
    jobs += [lambda b=b: model(chk, "CsaCost", "CsaCost", patch=[(r'Bug = ""', f'Bug = "{b}"')], expect_ok=False) for b in ("rescan", "recursive chain", "limit ignored", "copies on the stack")]
    jobs += [lambda n=n, c=c: build(n, c) for n in names for c in (True, False)]
    pmap(lambda f: f(), jobs)
    import props
    props.proofs(chk, "CsaAccountProof")
    plans = {}
    for n in names:
        r = rng("C20", n); sz = engine.real_size(n)
        plans[n] = (small(sz), large(r, sz, thorough))
    flat = [shape(l) for n in names for part in plans[n] for l in part]
    sf = vlib.newfile(".json")
    with open(sf, "w") as f:
        json.dump(flat, f)
    rr = vlib.tlc("CsaCost", env={"SHAPES": sf, "WORK": sf + ".work"})
    if not rr.ok:
        raise Broken("CsaCost does not tell the work of the calls:\n" + rr.out[-1500:])
    got = json.load(open(sf + ".work"))
    if len(got) != len(flat):
        raise Broken("CsaCost does not tell the work of all calls")
    it = iter(got)
    want = {n: tuple([next(it) for _ in part] for part in plans[n]) for n in names}
    def kind(l):
        w = l.split()
        return "set" + w[1] if w[0] == "set" or w[0] == "many" and w[2] == "set" else "s" + w[1] if w[0] == "one" else "b" + w[1] if w[0] in ("bat", "mix") else w[1] + w[2]
    def phase(name, counting):
        """(results of small calls, of large calls)"""
        exe = build(name, counting); sm, lg = plans[name]; k = 3
        parts = pmap(lambda i: measure(exe, sm if i < 0 else lg[i::k])[0], range(-1, k), k)
        b = [None] * len(lg)
        for i in range(k):
            b[i::k] = parts[i + 1]
        return parts[0], b
    def variant(name):
        sm, lg = plans[name]
        x0, x1 = phase(name, True)
        if any(isinstance(x, str) for x in x0):
            chk.bad(f"{name}: [{next(l for l, x in zip(sm, x0) if isinstance(x, str))}] does not complete", []); return
        # calibration on small calls: what a pass and a copy cost here
        wp, wc, base = {}, {}, {}
        for l, q, x in zip(sm, want[name][0], x0):
            if not q[1]:
                k = kind(l); wp[k] = max(wp.get(k, 0), x[0] / q[0]); base[(k, q[0])] = x[0]
        for l, q, x in zip(sm, want[name][0], x0):
            k = kind(l)
            if q[1] and q[1] <= 8 and (k, q[0]) in base:
                wc[k] = max(wc.get(k, 0), (x[0] - base[(k, q[0])]) / q[1])
        few = {l.rsplit(" ", 1)[0]: x[0] for l, x in zip(lg, x1) if l.startswith("many") and l.endswith(" 0") and not isinstance(x, str)}
        def work(l, q, x):
            k = kind(l)
            if isinstance(x, str):
                return f"does not complete: {x}"
            if l.startswith("many"):
                n = few.get(l.rsplit(" ", 1)[0])
                if n is not None and x[0] > 1.25 * n + 300:
                    return f"executes {x[0]} steps; {n} with no other context"
            usual = wp[k] * q[0] + wc.get(k, 0) * q[1]
            return f"executes {x[0]} steps; {q[0]} passes and {q[1]} copies like those of small calls are {int(usual)}" if x[0] > 3 * usual + 2000 else None
        def confirm(found, counting, judge):
            for l, q in found[:3]:
                (x,), f = measure(build(name, counting), [l])
                if judge(l, q, x):
                    chk.bad(f"{name}: [{l}] {judge(l, q, x)}", [f])
        confirm([(l, q) for l, q, x in zip(lg, want[name][1], x1) if work(l, q, x)], True, work)
        if chk.verd.v:
            return
        y0, y1 = phase(name, False)
        st = {}
        for l, y in zip(sm, y0):
            st[kind(l)[0]] = max(st.get(kind(l)[0], 0), 0 if isinstance(y, str) else y[1])
        def stack(l, q, y):
            if isinstance(y, str):
                return None if "14" in y else f"does not complete: {y}"
            return f"needs {y[1]} bytes of stack, small calls {st[kind(l)[0]]}" if y[1] > STACK or y[1] > st[kind(l)[0]] + GROWTH else None
        confirm([(l, q) for l, q, y in zip(sm + lg, want[name][0] + want[name][1], y0 + y1) if stack(l, q, y)], False, stack)
        worst = max((x[0] / (wp[kind(l)] * q[0] + wc.get(kind(l), 0) * q[1] + 1) for l, q, x in zip(lg, want[name][1], x1) if not isinstance(x, str)), default=0)
        chk.count(calls_measured=len(sm) + len(lg))
        with chk.lock:
            chk.cov.setdefault("configurations", []).append(name)
            chk.cov.setdefault("worst_ratio_of_work", {})[name] = round(worst, 2)
            chk.cov.setdefault("stack_bytes", {})[name] = max(y[1] for y in y0 + y1 if not isinstance(y, str))
        if len(chk.samples) < 6:
            chk.sample({"configuration": name, "calls": [f"{l}: work {x}, model {q}" for l, q, x in list(zip(lg, want[name][1], x1))[:8]]})
    pmap(variant, names, 3)
