"""Running units on the real library and deciding them against the specification."""
import json, os, re, shutil, subprocess, threading, time
import vlib
from vlib import Broken, V, pmap, scratch

def lines_of(path):
    with open(path, errors="replace") as f:
        return f.read().split("\n")

def real_size(name):
    """The batch size the built library advertises."""
    if name not in _sizes:
        s, o = vlib.run_exec(name, ["size"])
        m = re.search(r"^S (\d+)", open(o).read(), re.M)
        if not m:
            raise Broken(f"no batch size from {name}")
        _sizes[name] = int(m[1])
    return _sizes[name]
_sizes = {}

def chunked(units, n):
    n = max(1, min(n, len(units)))
    sizes = [sum(len(l) for l in u) + 60 * len(u) for u in units]
    total, out, cur, acc = sum(sizes), [], [], 0
    for u, s in zip(units, sizes):
        cur.append(u); acc += s
        if acc >= total / n and len(out) < n - 1:
            out.append(cur); cur, acc = [], 0
    if cur:
        out.append(cur)
    return out

def references(queries, refname, how):
    """The library's own results for the queried operations, alone in a fresh context
    (how=ref) or in a fresh process (how=fresh)."""
    lines = [f"{how} {q}" for q in queries]
    s, o = vlib.run_exec(refname, lines, timeout=600)
    res = [l for l in lines_of(o) if l.startswith("Q ")]
    if len(res) != len(queries):
        # the library died on a reference: that is a violation of the caller's property
        return None, (s, o)
    return [(q, r[2:]) for q, r in zip(queries, res)], (s, o)

def decide(name, lines, mode, flags="-", refname=None, how="ref", timeout=600, table=None):
    """Run the lines on variant `name'; returns (complaints, counts, files)."""
    s, o = vlib.run_exec(name, lines, timeout=timeout)
    if mode.startswith("ref"):
        t = s[:-4] + f".{name}.table"
        kind = mode.split(":")[1]
        vlib.judge(s, o, "queries:" + kind, t, "-")
        qs = [l for l in lines_of(t) if l]
        if table is not None:                      # the specification's own results
            missing = [q for q in qs if q not in table]
            if missing:
                raise Broken("no result from the specification for " + missing[0][:100])
            pairs, rf = [(q, table[q]) for q in qs], None
        else:
            pairs, rf = references(qs, refname or name, how)
        if pairs is None:
            return [f"the library did not complete a single operation in a fresh context ({refname or name})"], {}, [*rf]
        with open(t, "w") as f:
            f.writelines(f"{q} {r}\n" for q, r in pairs)
        bad, counts = vlib.judge(s, o, mode, t, flags, timeout=timeout)
        counts["references"] = len(pairs)
        return bad, counts, [s, o, t]
    bad, counts = vlib.judge(s, o, mode, None, flags, timeout=timeout)
    return bad, counts, [s, o]

def bulk(chk, mode, names, secs, cap=100_000_000, case=None):
    """harness/bulk.c: random cases by the million.  names: variants, each gets `secs' seconds."""
    base = vlib.rng(chk.pid, "bulk", mode).randrange(1 << 40)
    pmap(vlib.build_bulk, dict.fromkeys(names))
    def call(name, first, last, secs):
        cmd = V[name].emu + [vlib.build_bulk(name), mode, str(base), str(first), str(last), str(secs)]
        r = vlib.run(cmd, timeout=secs + 400)
        if r.returncode not in (0, 1, 4):
            raise Broken(f"bulk {mode} for {name} ended with {r.returncode}: {r.stdout[-200:]}{r.stderr[-200:]}")
        m = re.search(r"^BAD (\d+) (.*)", r.stdout, re.M)
        return (int(m[1]), m[2], cmd) if m else None, r.stdout
    def go(t):
        i, name = t
        if chk.stopped():
            return
        first = i * 100_000_000 if case is None else case[i]
        b, out = call(name, first, first + cap, secs)
        for k, n in re.findall(r"^LONG (\d+) (\d+)", out, re.M):
            with chk.lock:
                chk.cov.setdefault("long_use_calls", {})[f"{name} {k}"] = int(n)
        m = re.search(r"^OK (\d+)", out, re.M)
        if m:
            chk.count(bulk_cases=int(m[1]))
            with chk.lock:
                chk.cov.setdefault("bulk", {}).setdefault(mode, {}).setdefault(name, 0); chk.cov["bulk"][mode][name] += int(m[1])
        if not b:
            return
        again, _ = call(name, b[0], b[0] + 1, 60 if case is None else 4 * secs)
        if not again:
            again, _ = call(name, first, b[0] + 1, 2 * secs + 60)
        if not again:
            raise Broken(f"{name}: complaint of bulk {mode} not repeatable: case {b[0]} {b[1]}")
        f = vlib.newfile(".bulk")
        with open(f, "w") as g:
            g.write(" ".join(again[2][again[2].index(mode):]) + "\n" + again[1] + "\n")
        chk.bad(f"{name}: {again[1]} (bulk {mode}, case {again[0]})", [f])
    pmap(go, list(enumerate(names)))

FUZZ8 = ["default", "uint32", "sse2", "avx2", "default-altsbox", "ssse3", "default", "uint32"]
def fuzz(chk, modes, secs=None, names=FUZZ8):
    """The cases of harness/bulk.c, chosen by a search that the library's own comparisons and
    branches guide, so that values the code singles out are met.  Eight searches for each
    mode, `secs' seconds each."""
    secs = secs or (900 if vlib.TIER == "thorough" else 20)
    names = [n for n in names if V[n].native]
    pmap(vlib.build_fuzz, dict.fromkeys(names))
    def call(p, mode, d, args, limit):
        msg = os.path.join(d, "message")
        if os.path.exists(msg):
            os.unlink(msg)
        env = dict(os.environ, FUZZ_MODE=mode, FUZZ_OUT=msg)
        try:
            r = vlib.run([p, *args, "-artifact_prefix=" + d + "/"], timeout=limit, env=env, cwd=d, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return "the library did not complete a call in time", ""
        if r.returncode == 0:
            return None, r.stderr
        if os.path.exists(msg):
            return open(msg).read().strip(), r.stderr
        m = re.search(r"ERROR: libFuzzer: (deadly signal|timeout|out-of-memory|fuzz target exited)", r.stderr)
        if not m:
            raise Broken(f"fuzz target ended with {r.returncode}: {r.stderr[-400:]}")
        if m[1] == "out-of-memory" or m[1] == "fuzz target exited" and mode == "limits":
            return None, r.stderr
        return "the library did not complete the call: " + m[1], r.stderr
    def go(t):
        i, mode, name = t
        if chk.stopped():
            return
        p = vlib.build_fuzz(name)
        if not p:
            chk.count(fuzz_not_built=1); return
        d = os.path.join(scratch(), "fuzz", f"{mode}.{i}"); c = os.path.join(d, "corpus"); os.makedirs(c)
        seed = vlib.rng(chk.pid, "fuzz", mode, i).randrange(1, 1 << 31)
        args = [c, f"-seed={seed}", f"-max_total_time={secs}", "-max_len=3000", "-use_value_profile=1", "-reload=0", f"-timeout={30 if mode == 'limits' else 100}", "-rss_limit_mb=3000",
                "-print_final_stats=1", f"-len_control={[0, 20, 100][i % 3]}"] + (["-close_fd_mask=3", "-handle_abrt=0"] if mode == "limits" else [])
        bad, log = call(p, mode, d, args, secs + 200)
        m = re.search(r"number_of_executed_units: *(\d+)", log)
        if m:
            chk.count(fuzz_cases=int(m[1]))
        if bad:
            left = [os.path.join(d, x) for x in os.listdir(d) if re.match(r"(crash|timeout)-", x)]
            again = None
            if left:
                again, _ = call(p, mode, d, [left[0]] + (["-handle_abrt=0"] if mode == "limits" else []), 200)
            for _ in range(2):
                if not again:
                    shutil.rmtree(c); os.makedirs(c)
                    again, _ = call(p, mode, d, args[:2] + [f"-max_total_time={3 * secs}"] + args[3:], 3 * secs + 200)
            if not again:
                raise Broken(f"{name}: complaint of the {mode} search not repeatable: {bad}")
            f = vlib.newfile(".fuzz")
            if left:
                shutil.copy(left[0], f)
            else:
                open(f, "w").write(" ".join(args) + "\n")
            chk.bad(f"{name}: {again} (guided {mode})", [f])
        shutil.rmtree(d, ignore_errors=True)
    pmap(go, [(i, m, n) for m in modes for i, n in enumerate(names)])

def bulk_same(chk, names, cases):
    """C13: digests of the same cases in several configurations."""
    base = vlib.rng(chk.pid, "bulk", "conf").randrange(1 << 40)
    pmap(vlib.build_bulk, names)
    def get(t):
        name, first, last = t
        r = vlib.run(V[name].emu + [vlib.build_bulk(name), "conf", str(base), str(first), str(last), "600"], timeout=1000)
        if r.returncode == 4:
            return None
        if r.returncode not in (0, 1):
            raise Broken(f"bulk conf for {name} ended with {r.returncode}: {r.stdout[-200:]}{r.stderr[-200:]}")
        return r.stdout.split("\n")[:-2] + ([r.stdout.split("\n")[-2]] if r.returncode else [])
    for group, first, last in cases:
        if chk.stopped():
            return
        res = pmap(lambda n: get((n, first, last)), group)
        for n, ls in zip(group, res):
            if ls is None or res[0] is None or ls == res[0]:
                continue
            i = next((i for i, (a, b) in enumerate(zip(ls, res[0])) if a != b), min(len(ls), len(res[0])))
            if get((n, first, last)) == get((group[0], first, last)):
                raise Broken(f"bulk conf: difference between {n} and {group[0]} not repeatable")
            f = vlib.newfile(".bulk"); open(f, "w").write(f"conf {base} {first} {last} 600\ncase {first + i} differs between {n} and {group[0]}\n")
            chk.bad(f"{n} and {group[0]} differ in case {first + i} (bulk conf)", [f])
        chk.count(bulk_cases=(last - first) * len(group))

SKIP_COUNTS = {"bad", "reports"}
def verify(chk, jobs):
    """jobs: list of (variant, units, mode, flags, options); all run in parallel."""
    tasks = []
    for name, units, mode, flags, opt in jobs:
        per = opt.pop("chunks", 2)
        for ch in chunked(units, per):
            tasks.append((name, ch, mode, flags, dict(opt)))
    vlib.build_all(sorted({t[0] for t in tasks} | {t[4]["refname"] for t in tasks if t[4].get("refname")}))
    # the emulated ones take longest: first
    tasks.sort(key=lambda t: -(sum(len(u) for u in t[1]) * (6 if V[t[0]].emu else 1)))
    def work(t):
        name, ch, mode, flags, opt = t
        if chk.stopped():
            return
        lines = [l for u in ch for l in u]
        t0 = time.time()
        bad, counts, files = decide(name, lines, mode, flags, **opt)
        t0 = time.time() - t0
        with chk.lock:
            for k, n in counts.items():
                if k not in SKIP_COUNTS:
                    chk.cov[k] = chk.cov.get(k, 0) + n
            chk.cov["histories"] = chk.cov.get("histories", 0) + len(ch)
            chk.cov.setdefault("configurations", [])
            if name not in chk.cov["configurations"]:
                chk.cov["configurations"].append(name)
            if len(chk.samples) < 8:
                u = min(ch, key=len)
                chk.samples.append({"configuration": name, "history": [l[:160] for l in u[:8]]})
        if bad:
            for _ in range(5):
                bad2, _, files2 = decide(name, lines, mode, flags, **opt)
                if bad2:
                    break
            if bad2:
                small = shrink(name, ch, mode, flags, opt) if t0 < 15 else None
                chk.bad(f"{name}: {bad[0]}" + (f" (and {len(bad) - 1} more)" if len(bad) > 1 else ""), small or files2)
            else:
                raise Broken(f"{name}: complaint not repeatable: {bad[0]}")
    pmap(work, tasks)

def shrink(name, ch, mode, flags, opt):
    """Find one unit that fails on its own, for the replay file."""
    lo = list(ch)
    try:
        while len(lo) > 1:
            h = lo[:len(lo) // 2]
            bad, _, files = decide(name, [l for u in h for l in u], mode, flags, **opt)
            if bad:
                lo = h; continue
            h = lo[len(lo) // 2:]
            bad, _, files = decide(name, [l for u in h for l in u], mode, flags, **opt)
            if not bad:
                break
            lo = h
        bad, _, files = decide(name, [l for u in lo for l in u], mode, flags, **opt)
        return files if bad else None
    except Exception:
        return None

def same_everywhere(chk, names, units, timeout=600):
    """C13: the same calls in several configurations, outcomes compared line by line."""
    vlib.build_all(names)
    lines = [l for u in units for l in u]
    s = vlib.newfile(".scn")
    with open(s, "w") as f:
        f.write("\n".join(lines) + "\n")
    outs = {}
    def go(n):
        o = s[:-4] + f".{n}.out"
        vlib.run_exec_file(n, s, o, timeout)
        return [l for l in lines_of(o) if l and l[0] in "DRFZAKX"], o
    res = pmap(go, names)
    if any(ls != res[0][0] for ls, _ in res):
        again = pmap(go, [n for n, (ls, _) in zip(names, res) if ls != res[0][0]] + names[:1])
        if all(ls == again[-1][0] for ls, _ in again):
            raise Broken("a difference between configurations is not repeatable")
        d = dict(zip([n for n, (ls, _) in zip(names, res) if ls != res[0][0]], again)); d[names[0]] = again[-1]
        res = [d.get(n, x) for n, x in zip(names, res)]
    base, bo = res[0]
    for n, (ls, o) in zip(names, res):
        with chk.lock:
            chk.cov["outcomes_compared"] = chk.cov.get("outcomes_compared", 0) + len(ls)
        if ls != base:
            i = next((i for i, (a, b) in enumerate(zip(ls, base)) if a != b), min(len(ls), len(base)))
            a = ls[i][:60] if i < len(ls) else "nothing"; b = base[i][:60] if i < len(base) else "nothing"
            chk.bad(f"{n} and {names[0]} differ at outcome {i}: {a!r} and {b!r}", [s, o, bo])
    return s, bo

# --------------------------------------------------------------------------- traces in TLC
def events(scn, outc, hexmode):
    """Scenario and outcome files -> events of CsaTrace."""
    val = (lambda h: "" if h == "-" else h) if hexmode else (lambda h: [] if h == "-" else list(bytes.fromhex(h)))
    ev, kinds = [], {}
    outs = (l for l in lines_of(outc) if l and l[0] not in "!")
    scrib = val("9696969696969696")
    for l in lines_of(scn):
        w = l.split()
        if not w or w[0][0] == "#" or w[0] in ("region", "amode", "opfail", "env", "fpenv", "recycle", "probe"):
            continue
        if w[0] == "buf":
            ev.append(dict(op="fill", b=int(w[1]), p=val(w[4]))); continue
        try:
            o = next(outs).split()
        except StopIteration:
            ev.append(dict(op="nothing recorded")); break
        if o[0] in ("F", "E"):
            ev.append(dict(op="died")); break
        H = lambda h: int(h) + (100 if kinds.get(int(h)) == "b" else 0)
        if w[0] == "size":
            ev.append(dict(op="size", reply=int(o[1])))
        elif w[0] == "alloc":
            kinds[int(w[1])] = w[2]; ev.append(dict(op="alloc", h=H(w[1]), reply=o[2]))
            if o[2] != "ok":
                kinds[-int(w[1]) - 1] = 1
        elif w[0] == "set":
            ev += [dict(op="scribble", cw=val(w[2])), dict(op="set", h=H(w[1])), dict(op="scribble", cw=scrib)]
        elif w[0] == "free":
            if kinds.pop(-int(w[1]) - 1, None):
                continue                       # freeing NULL
            ev.append(dict(op="free", h=H(w[1])))
        elif w[0] == "reset":
            ev.append(dict(op="reset")); kinds = {}
        elif w[0] in ("enc", "dec"):
            ev.append(dict(op=w[0], h=H(w[1]), b=int(w[2]), out=val(o[1])))
        elif w[0] in ("benc", "bdec"):
            ev.append(dict(op=w[0], h=H(w[1]), m=int(w[2]), reply="done", bs=[int(x) for x in w[4:]], outs=[val(x) for x in o[1:]]))
        elif w[0] == "try":
            ev.append(dict(op=w[1], h=H(w[2]), m=min(int(w[3]), 2**31 - 1 - (2**31 - 1) % 8 + int(w[3]) % 8 if int(w[3]) >= 2**31 else int(w[3])),
                           reply="done" if o[1:3] == ["exit", "0"] else "refused" if o[1] == "signal" and o[2] in ("6", "4", "5") else "died",
                           bs=[int(x) for x in w[4:]], outs=[val(x) for x in o[4:]]))
        else:
            raise Broken("event? " + l)
    return ev

CFG = None
def tlc_trace(ev, cipher, batch, size, table=None):
    """Does TLC accept the events as a behaviour of CsaLib?  Returns (accepted, result, matched)."""
    cfg = open(os.path.join(vlib.SPEC, "CsaTrace.cfg.in")).read().replace("@BATCH@", str(size)).replace("@C@", cipher).replace("@B@", batch)
    tj = json.dumps(table or {"x": "y"})
    r = vlib.tlc("CsaTrace", extra_files=[(cfg + "\n", "CsaTrace.cfg"), ("\n".join(json.dumps(e) for e in ev) + "\n", "trace.ndjson"), (tj + "\n", "table.json")],
                 timeout=800, heap="3g")
    m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', r.out)
    if not m:
        raise Broken("TLC could not evaluate a trace:\n" + r.out[-2500:])
    ok = r.ok and m[1] == m[2]
    if not ok and r.ok:
        raise Broken("TLC trace verdict inconsistent")
    return ok, r, int(m[1])

def corrupt(ev, r):
    """One recorded field changed."""
    ev = json.loads(json.dumps(ev))
    cand = [(i, e) for i, e in enumerate(ev) if (e["op"] in ("enc", "dec") and e["out"]) or (e["op"] in ("benc", "bdec") and any(e["outs"]))]
    if not cand:
        cand = [(i, e) for i, e in enumerate(ev) if e["op"] in ("alloc", "size", "benc", "bdec")]
        i, e = r.choice(cand)
        e["reply"] = {"ok": "nil", "null": "ok2", "refused": "done", "done": "refused"}.get(e["reply"], 0)
        return ev, i
    i, e = r.choice(cand)
    if "out" in e:
        box, k = e, "out"
    else:
        box = e["outs"]; k = r.choice([j for j, x in enumerate(box) if x])
    x = box[k]; j = r.randrange(len(x))
    if isinstance(x, str):
        box[k] = x[:j] + ("0" if x[j] != "0" else "1") + x[j + 1:]
    else:
        x[j] ^= 1 << r.randrange(8)
    return ev, i

def traces(chk, name, units, cipher="spec", refkind="scalar", refname=None, how="fresh", selftest=True):
    """Record one execution of the units on the real library and let TLC decide whether
    it is a behaviour of the specification."""
    if chk.stopped():
        return
    lines = [l for u in units for l in u]
    size = real_size(name)
    def record():
        s, o = vlib.run_exec(name, lines)
        table = None
        if cipher == "ref":
            t = s[:-4] + f".{name}.ttable"
            vlib.judge(s, o, "queries:" + refkind, t, "-")
            pairs, rf = references([l for l in lines_of(t) if l], refname or name, how)
            if pairs is None:
                return s, o, None, None
            table = dict(pairs)
        return s, o, events(s, o, cipher == "ref"), table
    c, b = ("Spec", "Spec") if cipher == "spec" else ("Ref", "Same" if refkind == "same" else "Ref")
    s, o, ev, table = record()
    if ev is None:
        chk.bad(f"{name}: a reference operation did not complete", [s, o]); return
    ok, r, matched = tlc_trace(ev, c, b, size, table)
    chk.add_states(r)
    if not ok:
        s, o, ev2, table = record()
        ok2, r2, matched2 = tlc_trace(ev2, c, b, size, table)
        if ok2:
            raise Broken(f"{name}: trace rejection not repeatable")
        e = ev2[matched2] if matched2 < len(ev2) else {}
        chk.bad(f"{name}: TLC rejects the recorded trace at event {matched2 + 1}: {json.dumps(e)[:200]}", [s, o])
        return
    with chk.lock:
        chk.traces += len(units); chk.cov["trace_events"] = chk.cov.get("trace_events", 0) + len(ev)
        if len(chk.samples) < 12:
            chk.samples.append({"trace": name, "events": [json.dumps(e)[:200] for e in ev[:6]]})
    if selftest:
        rr = vlib.rng("corrupt", chk.pid, name)
        bad, i = corrupt(ev, rr)
        ok, r, matched = tlc_trace(bad, c, b, size, table)
        if ok or matched != i:
            raise Broken(f"self-test: a trace with event {i} corrupted was not rejected there (matched {matched})")
        chk.count(corrupted_traces_rejected=1)

# --------------------------------------------------------------------------- model checking
def model(chk, module, cfg, workers=2, timeout=600, patch=None, heap="3g", expect_ok=True, args=()):
    """TLC on a specification module; a failure is a failure of the machinery, not of the code."""
    text = open(os.path.join(vlib.SPEC, cfg + ".cfg")).read()
    for a, b in (patch or []):
        if not re.search(a, text):
            raise Broken(f"cannot patch {cfg}: {a}")
        text = re.sub(a, b, text)
    r = vlib.tlc(module, cfg="run", extra_files=[(text + "\n", "run.cfg")], workers=workers, timeout=timeout, heap=heap, args=args)
    if expect_ok:
        if not r.ok:
            raise Broken(f"TLC rejects the specification {module} ({cfg}):\n" + r.out[-3000:])
        chk.add_states(r)
    else:
        if r.ok or not re.search(r"is violated|was violated|violated", r.out):
            raise Broken(f"TLC does not reject the design fault {patch} in {module}:\n" + r.out[-1500:])
        chk.count(design_faults_rejected=1)
    return r

def printed(r, tag):
    """JSON values printed by the specification with PrintT(<<tag, ToJson(...)>>)."""
    out = []
    for m in re.finditer(r'<<"%s", "(.*)">>' % tag, r.out):
        out.append(json.loads(m[1].replace('\\"', '"').replace("\\\\", "\\")))
    return out
