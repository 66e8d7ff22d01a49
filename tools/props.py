"""What each check explores.  See DESIGN.md for the reasoning."""
import os, re, subprocess, sys, time
import vlib
from vlib import BASE14, NATIVE9, V, Broken, rng
from gen import *
import engine
from engine import verify, traces, model, printed, real_size

Q = 1
def scale(n, t=10):
    """n in the quick tier, t times as much in the thorough one"""
    return n * t if vlib.TIER == "thorough" else n

NATIVE = [n for n in V if n not in vlib.FOREIGN]
FOREIGN = ["neon-aarch64", "neon-aarch64-altsbox", "uint64-ppc64be", "uint64-ppc64be-altsbox", "uint32-ppc64be"]
def bulk(chk, *modes, native=None, foreign=None, total=100, cap=100_000_000):
    """About `total' processor seconds of random cases per mode, native and (a third) foreign."""
    native, foreign = NATIVE if native is None else native, FOREIGN if foreign is None else foreign
    k = 30 if vlib.TIER == "thorough" else 1
    for m in modes:
        names = foreign + native
        w = len(native) + len(foreign)
        engine.bulk(chk, m, names, max(3, total * k // w), cap * k)

def lengths(chk, mode, top):
    """Every length of a single payload from 601 to `top' (m_length), the alternative S-box build for some."""
    if vlib.TIER == "thorough":
        top *= 4
    k = 16; step = (min(top, 1 << 17) - 601) // k + 1
    engine.bulk(chk, mode, ["default"] * k, 300, step, [i * step for i in range(k)])
    chk.cov["every_length_to"] = min(top, 1 << 17)

def alias(chk, mode):
    """Words or packets that agree in a usual hash."""
    engine.bulk(chk, mode, ["default", "uint32", "avx2", "sse2", "default-altsbox", "ssse3"], 300 if vlib.TIER == "thorough" else 12)

LONG = dict(set_use=0, use=1, set=2, bset=3, buse=4, life=5, blife=6)
def wear(chk, *kinds):
    """Contexts that live long, and many of them; kinds: what is done without end (m_long)."""
    if kinds:
        t = [(n, LONG[k]) for k in kinds for n in (["default", "default-altsbox"] if k in ("set_use", "use", "set", "life") else ["default", "avx2"])]
        engine.bulk(chk, "long", [n for n, _ in t], 600 if vlib.TIER == "thorough" else 16, 1, [k for _, k in t])
    big = vlib.TIER == "thorough"
    engine.bulk(chk, "wear", ["default", "uint32", "avx2", "sse2", "default-altsbox", "ssse3"], 900 if big else 100, 120 if big else 12)

SINGLE_OTHER = ["uint64-ppc64be", "uint32-ppc32be", "neon-aarch64"]
BSOME = ["default", "uint32", "sse2", "avx2"]

# ============================================================ single packets
def single_units(r, op, n_rand, big=True, special=True, lens=None):
    """Units with one key each and a number of packets."""
    us = []
    inv = "dec" if op == "enc" else "enc"
    lens = list(lens if lens is not None else range(0, 601))
    r.shuffle(lens)
    todo = [(op, payload(r, n)) for n in lens] + [(op, payload(r, plen(r, r.choice([184, 184, 188, 300])))) for _ in range(n_rand)]
    r.shuffle(todo)
    while todo:
        u = Unit(); u.key(0, "s", cw(r), r.choice(["e", 0, 3, 8]))
        for o, p in todo[:25]:
            u.single(o, 0, p, rnd=r)
        todo = todo[25:]
        us.append(u.L)
    if special:
        for c in cw_special():
            u = Unit(); u.key(0, "s", c)
            for n in (8, 9, 16, 40, 184, 188):
                for p in (bytes(n), b"\xff" * n, r.randbytes(n)):
                    u.single(op, 0, p)
            us.append(u.L)
        # first scrambled blocks and last plaintext blocks of every byte value
        for v in range(256):
            u = Unit(); u.key(0, "s", r.randbytes(8))
            for n in (8, 24):
                b = bytearray(n); b[r.randrange(n)] = v
                u.single(inv, 0, bytes(b)); u.one(op, 0, 0)
            for n in (16, 30):
                u.single(op, 0, bytes([v]) * n)
            us.append(u.L)
    if big:
        for n in BIG + [r.randint(200, 70000) for _ in range(10)]:
            u = Unit(); u.key(0, "s", r.randbytes(8)); u.single(op, 0, payload(r, n)); us.append(u.L)
        for n in (131072 + 5, 262144 + 1, 1048576 + 11):
            u = Unit(); u.key(0, "s", r.randbytes(8)); u.single(op, 0, r.randbytes(n)); us.append(u.L)
    r.shuffle(us)
    return us

def small_single(r, op, k=10, lens=(0, 3, 7, 8, 9, 16, 23, 40)):
    us = []
    for _ in range(k):
        u = Unit(); u.key(0, "s", cw(r))
        for n in r.sample(lens, 4):
            u.single(op, 0, payload(r, n))
        us.append(u.L)
    return us

def absolute_single(chk, op):
    r = rng(chk.pid)
    jobs = [("default", single_units(r, op, scale(4000)), "spec", "-", dict(chunks=8))]
    for n in SINGLE_OTHER:
        jobs.append((n, single_units(r, op, scale(150), big=False, lens=range(0, 200)), "spec", "-", dict(chunks=1)))
    for n in ["default-altsbox", "uint32", "avx2"]:
        jobs.append((n, single_units(r, op, scale(150), big=False, special=False, lens=range(0, 260, 3)), "spec", "-", dict(chunks=1)))
    verify(chk, jobs)
    traces(chk, "default", small_single(r, op, scale(12, 4)))

def huge(chk, op):
    """Payloads of 2^24 bytes and more: all of the outcome where time allows, the first 64 KB
    of the outcome (which encryption makes depend on all the rest) where not."""
    r = rng(chk.pid, "huge")
    big = vlib.TIER == "thorough"
    todo = [(2**24 + 19, None), (2**31 + 24 + r.randrange(8), 2**31 + 64 if big else 65536)]
    if big:
        todo += [(2**26 + 1, None), (2**28 + 15, None), (2**32 - 1, 65536), (2**31 - 8, 65536), (2**31 + 8, 65536)]
    p = vlib.build_huge("default")
    def go(t):
        n, check = t
        seed = r.randrange(2**60)
        cmd = [p, op, str(n), str(seed), str(n if check is None else check), str(36000 if big else 350)]
        def once():
            x = vlib.run(cmd, timeout=40000)
            if x.returncode not in (0, 1, 4):
                if x.returncode in (69, 71, 72):           # not enough memory here
                    return 4, ""
                raise Broken(f"huge ended with {x.returncode}: {x.stderr[-300:]}")
            return x.returncode, x.stdout
        rc, o = once()
        if rc == 1:
            if once()[0] != 1:
                raise Broken("huge: not repeatable")
            f = vlib.newfile(".huge"); open(f, "w").write(" ".join(cmd[1:]) + "\n" + o)
            chk.bad("default: " + o.strip()[4:], [f])
        chk.count(**{"huge_payloads" if rc == 0 else "huge_payloads_not_completed" if rc == 4 else "huge_payloads_bad": 1})
        if rc == 0:
            with chk.lock:
                chk.cov.setdefault("huge_lengths", []).append(n)
    vlib.pmap(go, todo)

def C01(chk):
    vlib.pmap(lambda f: f(), [lambda: huge(chk, "enc"), lambda: (vectors(chk), absolute_single(chk, "enc"), bulk(chk, "enc", native=["default"] * 7, foreign=[], total=140), lengths(chk, "lenc", 8192), engine.fuzz(chk, ["enc"], 40 if vlib.TIER == "quick" else None))])
def C02(chk):
    vlib.pmap(lambda f: f(), [lambda: huge(chk, "dec"), lambda: (vectors(chk), absolute_single(chk, "dec"), bulk(chk, "dec", native=["default"] * 7, foreign=[], total=140), lengths(chk, "ldec", 8192), engine.fuzz(chk, ["dec"], 40 if vlib.TIER == "quick" else None))])

def vectors(chk):
    """Algebra and published vectors of the cipher specification itself."""
    vlib.pmap(lambda f: f(), [lambda: model(chk, "CsaVectors", "CsaVectors", workers=4),
                              lambda: model(chk, "CsaVectors", "CsaVectors", patch=[(r'Bug = ""', 'Bug = "residue clear"')], expect_ok=False)])

# ============================================================ round trips
def C03(chk):
    r = rng("C03")
    def units(name, k, bs):
        us = []
        for _ in range(k):                       # single with single
            u = Unit(); u.key(0, "s", cw(r)); u.key(1, "s", bytes(8)); 
            for _ in range(8):
                p = payload(r, plen(r, r.choice([184, 300, 1000])))
                a, b = r.choice([("enc", "dec"), ("dec", "enc")])
                x = u.single(a, 0, p, rnd=r); y = u.one(b, 0, 0); u.rel("undone", x, y)
            us.append(u.L)
        for _ in range(k):                       # with batches
            c = cw(r); u = Unit(); u.key(0, "b", c); u.key(1, "s", c); u.key(2, "b", c)
            n = r.choice([1, 2, bs, bs - 1, r.randint(0, bs), r.randint(0, min(bs, 40))])
            top = r.choice([184, 184, 8 * r.randint(0, 23)])
            ix = u.packets(r, mix(r, [payload(r, plen(r, top)) for _ in range(n)]))
            lim = lambda: r.choice([184, top, top, 8 * r.randint(top // 8, 23)])
            a, b = r.choice([("enc", "dec"), ("dec", "enc")])
            how = r.randrange(4)
            if how == 0:
                xs = u.batch(a, 0, lim(), 0, ix); ys = u.batch(b, 2, lim(), 0, ix)
            elif how == 1:
                xs = u.batch(a, 0, lim(), 0, ix); ys = [u.one(b, 1, i) for i in ix]
            elif how == 2:
                xs = [u.one(a, 1, i) for i in ix]; ys = u.batch(b, 0, lim(), 0, ix)
            else:                                # back in another order
                xs = u.batch(a, 0, lim(), 0, ix); jx = ix[:]; r.shuffle(jx)
                zs = u.batch(b, 0, lim(), 0, jx); pos = {i: z for i, z in zip(jx, zs)}; ys = [pos[i] for i in ix]
            for x, y in zip(xs, ys):
                u.rel("undone", x, y)
            us.append(u.L)
        for n in ([600, 1024, 4097, 65543] if name == "default" else [777]):
            u = Unit(); u.key(0, "s", cw(r)); x = u.single("enc", 0, payload(r, n)); y = u.one("dec", 0, 0); u.rel("undone", x, y)
            x = u.one("dec", 0, 0); y = u.one("enc", 0, 0); u.rel("undone", x, y); us.append(u.L)
        return us
    jobs = []
    for n in BASE14:
        bs = real_size(n)
        k = scale(300 if n in BSOME else 60 if V[n].native else 30)
        jobs.append((n, units(n, k, bs), "rel", "-", dict(chunks=3 if n in BSOME else 1)))
    verify(chk, jobs)
    bulk(chk, "rt")
    lengths(chk, "lrt", 24000)
    link_model(chk)
    proofs(chk, "CsaRoundsProof", "CsaProof")
    engine.fuzz(chk, ["rt"])
    traces(chk, "default", [u for u in units("uint32", scale(3, 3), 6)], cipher="ref")
    library_model(chk, ["default", "uint32"], "rel")

# ============================================================ batches
def batch_units(r, bs, k, top=184, mode=0, ops=("enc", "dec"), limits=None, sizes=None, over=False):
    us = []
    for j in range(k):
        u = Unit(); u.key(0, "b", cw(r), r.choice(["e", 0, 5]))
        n = sizes[j % len(sizes)] if sizes else r.choice([bs, bs, bs - 1, bs - 2, bs - 3, r.randint(0, bs), r.randint(0, bs), r.randint(0, 9)])
        kind = r.randrange(8)
        L = plen(r, top)
        if kind < 3:
            lens = [plen(r, top) for _ in range(n)]
        elif kind == 3:
            lens = [top] * n
        elif kind == 4:
            lens = [L] * n
        elif kind == 5:
            lens = sorted(plen(r, top) for _ in range(n))
            if r.random() < .5:
                lens.reverse()
        elif kind == 6:
            lens = [r.choice([0, top]) for _ in range(n)]
        else:
            lens = [r.choice([L, L, L, 7, 8, top]) for _ in range(n)]
        m = (limits and r.choice(limits)) or (184 if r.random() < .7 else (max(lens + [0]) + 7) // 8 * 8)
        if over and lens and r.random() < .3:
            lens[r.randrange(n)] = r.randint(185, 400)
        m = min(m, 184)
        ix = u.packets(r, mix(r, [payload(r, l) for l in lens]))
        u.batch(r.choice(ops), 0, m, mode, ix)
        us.append(u.L)
    return us

def batch_jobs(chk, mode, flags="-", quick=1.0, names=BASE14, **kw):
    r = rng(chk.pid, "batch")
    jobs = []
    for n in names:
        bs = real_size(n)
        k = int(scale(quick * (2600 if not V[n].emu else 260) / bs))
        jobs.append((n, batch_units(r, bs, max(k, 6), **kw), mode, flags, dict(chunks=3 if not V[n].emu else 2)))
    return jobs

def C04(chk):
    r = rng("C04")
    jobs = batch_jobs(chk, "ref:scalar", quick=2.0)
    for n in BASE14:                              # every number of packets
        bs = real_size(n)
        step = 1 if not V[n].emu else 5
        sizes = list(range(r.randrange(step) if step > 1 else 0, bs + 1, step))
        us = []
        for s in sizes:
            us += batch_units(r, bs, 1, sizes=[s], top=r.choice([16, 24, 40, 184]))
        jobs.append((n, us, "ref:scalar", "-", dict(chunks=2)))
    for n in BASE14:                              # every length in every kind of lane
        bs = real_size(n); us = []
        for sh in range(2 if V[n].emu else 6):
            for a in range(0, 185, bs):
                u = Unit(); u.key(0, "b", cw(r)); ls = [(a + i + 31 * sh) % 185 for i in range(bs)]
                u.batch(r.choice(["enc", "dec"]), 0, 184, 0, u.packets(r, mix(r, [payload(r, l) for l in ls]))); us.append(u.L)
        us += structured(r, bs, ops=("enc", "dec") if not V[n].emu else (r.choice(["enc", "dec"]),))
        jobs.append((n, us, "ref:scalar", "-", dict(chunks=2)))
    verify(chk, jobs)
    bulk(chk, "batch")
    alias(chk, "aliasb")
    engine.fuzz(chk, ["batch"])
    batch_model(chk, ["default", "avx2"], "ref:scalar")
    slice_model(chk, BASE14, faults=[r.choice(["lane leak", "carry not kept", "window not moved"]), "network order"])
    traces(chk, "uint32", batch_units(r, 32, scale(4, 4), top=40), cipher="ref")

def C05(chk):
    r = rng("C05")
    jobs = []
    for n in BASE14:
        bs = real_size(n); us = []
        for _ in range(scale(3 if V[n].emu else 14)):
            # one packet and its companions in many arrangements
            x = payload(r, plen(r)); c = cw(r); m = r.choice([184, 184, 8 * r.randint(1, 23)])
            others = mix(r, [payload(r, plen(r)) for _ in range(bs)])
            op = r.choice(["enc", "dec"])
            u = Unit(); u.key(0, "b", c)
            pos = r.sample(range(bs), min(bs, 4)) + [0, bs - 1]
            for p in pos:
                k = r.randint(p + 1, bs)
                ps = others[:k]; ps[p] = x
                if r.random() < .5:
                    r.shuffle(others)
                if r.random() < .3:
                    q = r.randrange(k)
                    if q != p:
                        ps[q] = bytearray(x) and bytes(x[:-1]) + bytes([x[-1] ^ 1]) if x else x
                u.batch(op, 0, m, r.choice([0, 0, 2, 3]), u.packets(r, ps))
            us.append(u.L)
        # the same packets reversed and rotated
        for _ in range(scale(1 if V[n].emu else 6)):
            u = Unit(); u.key(0, "b", cw(r)); ps = mix(r, [payload(r, plen(r)) for _ in range(bs)])
            op = r.choice(["enc", "dec"])
            for t in (0, 1, 2):
                q = ps if t == 0 else ps[::-1] if t == 1 else ps[bs // 3:] + ps[:bs // 3]
                u.batch(op, 0, 184, 0, u.packets(r, q))
            us.append(u.L)
        us += structured(r, bs, ops=("enc", "dec") if not V[n].emu else (r.choice(["enc", "dec"]),))
        jobs.append((n, us, "ref:same", "-", dict(chunks=3 if not V[n].emu else 2)))
    verify(chk, jobs)
    bulk(chk, "indep")
    alias(chk, "aliasp")
    engine.fuzz(chk, ["indep"])
    batch_model(chk, ["default", "sse2"], "ref:same")
    traces(chk, "uint32", batch_units(r, 32, scale(4, 4), top=40), cipher="ref", refkind="same")

def C06(chk):
    r = rng("C06")
    jobs = []
    for n in BASE14:
        bs = real_size(n); us = []
        for rep in range(scale(1, 4)):
            for m in range(0, 185, 8):
                for op in ("enc", "dec"):
                    if V[n].emu and (m // 8 + (op == "enc") + rep) % 3:
                        continue
                    u = Unit(); u.key(0, "b", cw(r))
                    k = r.choice([bs, min(bs, 40), r.randint(1, bs)])
                    base = [m, m - 1, m - 7, m - 8, m + 1, m + 7, m + 8, m + 9, 184, 185, 188, 191, 192, 193, 200, 208, 376, 1000, 0, 7, 8, 15]
                    lens = [max(0, l) for l in base] + [r.choice([r.randint(0, 184), r.randint(0, m), r.randint(m, 400), r.randint(185, 260)]) for _ in range(bs)]
                    lens = lens[:k] if r.random() < .5 else r.sample(lens, k)
                    if r.random() < .5:
                        r.shuffle(lens)
                    u.batch(op, 0, m, r.choice([0, 3]), u.packets(r, [payload(r, l) for l in lens], spread=1088)); us.append(u.L)
        jobs.append((n, us, "ref:full", "stray", dict(chunks=2)))
    # lengths of all magnitudes over the limit
    for n in ["default", "avx2"]:
        us = []
        for L in (4096, 65535, 65536, 65544, 65600, 131072 + 64, 1 << 20):
            for op in ("enc", "dec"):
                u = Unit(amode=1); u.key(0, "b", cw(r)); m = r.choice([8, 96, 184]); u.region(3, L + 4096); u.buf(0, 3, "e", r.randbytes(L))
                ix = u.packets(r, [payload(r, plen(r)) for _ in range(3)], first=1); u.batch(op, 0, m, 0, [1, 0, 2, 3]); us.append(u.L)
        jobs.append((n, us, "ref:full", "stray", dict(chunks=1)))
    verify(chk, jobs)
    bulk(chk, "limit")
    engine.fuzz(chk, ["limit"])
    batch_model(chk, ["default", "uint32"], "ref:full")
    traces(chk, "uint32", batch_units(r, 12, scale(4, 4), top=40, limits=[8, 16, 24]), cipher="ref", refkind="scalar")

# ============================================================ C07, C19
def C07(chk):
    r = rng("C07")
    def flips(u, op, h, p, batch, bs):
        """p, p with flipped residue bits, p without residue"""
        n = len(p); k = n - n % 8
        q = bytearray(p)
        for i in range(k, n):
            q[i] ^= r.choice([0, 1 << r.randrange(8), r.randrange(256)])
        q[n - 1] ^= 1 << r.randrange(8)
        if batch:
            ps = [p, bytes(q), p[:k]]
            more = [payload(r, plen(r)) for _ in range(r.choice([0, 1, bs - 3]))]
            x = u.batch(op, h, 184 if r.random() < .5 or more else (n + 7) // 8 * 8, r.choice([0, 2, 3]), u.packets(r, ps + more))
        else:
            x = [u.single(op, h, a, rnd=r) for a in (p, bytes(q), p[:k])]
        u.rel("flip", x[0], x[1]); u.rel("prefix", x[0], x[2]); u.rel("prefix", x[1], x[2])
    jobs = []
    for n in BASE14:
        bs = real_size(n); us = []
        emu = bool(V[n].emu)
        for rep in range(scale(1, 6)):
            for l in range(0, 8):                    # short ones
                u = Unit(); u.key(0, "s", cw(r)); u.key(1, "b", cw(r))
                for op in ("enc", "dec"):
                    for p in (r.randbytes(l), bytes(l), b"\xff" * l):
                        u.single(op, 0, p, off=r.choice(["e", 0, 1]))
                    m = r.choice([0, 8, 184]); k = r.choice([1, 3, bs])
                    u.batch(op, 1, m, r.choice([0, 2]), u.packets(r, [payload(r, r.choice([l, l, r.randint(0, 7), 20]) if k > 1 else l) for _ in range(k)]))
                us.append(u.L)
            for l in range(9, 185):
                if l % 8 == 0 or emu and (l + rep) % 5:
                    continue
                u = Unit(); u.key(0, "s", cw(r)); u.key(1, "b", cw(r))
                for op in ("enc", "dec"):
                    flips(u, op, 1, payload(r, l), True, bs)
                    if n == "default" or l % 4 == 1:
                        flips(u, op, 0, payload(r, l), False, bs)
                us.append(u.L)
        if n == "default":
            for l in [r.choice(BIG) // 8 * 8 + r.randint(1, 7) for _ in range(scale(20))] + [185, 187, 191, 191, 65537, 65543]:
                u = Unit(); u.key(0, "s", cw(r)); flips(u, r.choice(["enc", "dec"]), 0, r.randbytes(l), False, bs); us.append(u.L)
        jobs.append((n, us, "rel:c07", "-", dict(chunks=3 if n in BSOME else 2)))
    verify(chk, jobs)
    bulk(chk, "short")
    lengths(chk, "lshort", 8192)
    engine.fuzz(chk, ["short"])
    batch_model(chk, ["default"], "rel:c07")
    traces(chk, "default", small_single(r, "enc", 4, lens=(1, 5, 7, 9, 12, 15, 17)) + small_single(r, "dec", 4, lens=(1, 5, 7, 9, 12, 15, 17)))

def C19(chk):
    r = rng("C19")
    def damage(p):
        q = bytearray(p); n = len(p)
        k = r.randrange(4)
        for _ in range(1 if k < 2 else r.randint(2, 6)):
            q[r.randrange(8, n)] ^= 1 << r.randrange(8)
        if k == 3:
            j = r.randrange(8, n); e = min(n, j + r.randint(1, 20)); q[j:e] = r.randbytes(e - j)
        if bytes(q) == bytes(p):
            q[n - 1] ^= 128
        return bytes(q)
    def change(p):
        q = bytearray(p); n = len(p); j = r.randrange(max(1, n // 8)) if r.random() < .6 else 0
        a = 8 * j; e = min(n, a + 8)
        q[r.randrange(a, e)] ^= 1 << r.randrange(8)
        if r.random() < .3:
            q[a:e] = r.randbytes(e - a)
        if r.random() < .3 and n % 8:
            q[n - 1] ^= 1
        return bytes(q)
    jobs = []
    plens = lambda: r.choice([r.randint(9, 184), r.randint(9, 184), 184, 8 * r.randint(2, 23), r.choice([9, 15, 16, 17, 23, 24, 25])])
    for n in BASE14:
        bs = real_size(n); us = []
        emu = bool(V[n].emu)
        for _ in range(scale(12 if emu else 120)):
            u = Unit(); c = cw(r); u.key(0, "s", c); u.key(1, "b", c if r.random() < .6 else cw(r))
            if n == "default" or r.random() < .3:
                for _ in range(4):
                    l = r.choice([r.randint(9, 184), r.randint(9, 184), 184, 8 * r.randint(2, 40), r.randint(185, 1500)]); p = payload(r, l)
                    x = u.single("dec", 0, p); y = u.single("dec", 0, damage(p)); u.rel("damage", x, y)
                    x = u.single("enc", 0, p); y = u.single("enc", 0, change(p)); u.rel("change", x, y)
            k = r.choice([2, 4, 8, bs // 2 * 2])
            for op, f, rel in (("dec", damage, "damage"), ("enc", change, "change")):
                ps = []
                for _ in range(k // 2):
                    p = payload(r, plens()); ps += [p, f(p)]
                x = u.batch(op, 1, 184, 0, u.packets(r, ps))
                for i in range(0, k, 2):
                    u.rel(rel, x[i], x[i + 1])
            us.append(u.L)
        # the damaged packets in a batch of their own, of any size and any limit
        sizes = [1, 1, 2, 3, 4, 5, 7, bs - 1, bs, bs // 2 + 1]
        for j in range(scale(12 if emu else 90)):
            u = Unit(); c = cw(r); u.key(1, "b", c); u.key(0, "s", c)
            k = sizes[j % len(sizes)] if r.random() < .7 else r.randint(1, bs)
            for op, f, rel in (("dec", damage, "damage"), ("enc", change, "change")):
                ls = [plens() for _ in range(k)] if r.random() < .7 else [plens()] * k
                m = r.choice([184, (max(ls) + 7) // 8 * 8])
                ps = mix(r, [payload(r, l) for l in ls])
                x = u.batch(op, 1, m, r.choice([0, 3]), u.packets(r, ps))
                qs = [f(p) if r.random() < .8 else p for p in ps]
                y = u.batch(op, 1, r.choice([184, m]), r.choice([0, 3]), u.packets(r, qs))
                for a, b in zip(x, y):
                    u.rel(rel, a, b)
                if r.random() < .3:                  # and with the other interface
                    i = r.randrange(k); z = u.single(op, 0, f(ps[i]), rnd=r); u.rel(rel, x[i], z)
                if r.random() < .3:                  # each alone
                    for i in r.sample(range(k), min(k, 3)):
                        y1 = u.batch(op, 1, m, 0, u.packets(r, [f(ps[i])])); u.rel(rel, x[i], y1[0])
            us.append(u.L)
        jobs.append((n, us, "rel", "-", dict(chunks=3 if n in BSOME else 2)))
    verify(chk, jobs)
    bulk(chk, "err", foreign=[])
    lengths(chk, "lerr", 4096)
    engine.fuzz(chk, ["err"])
    proofs(chk, "CsaProof")
    fs = ["forward chaining", "keystream fed back", "residue chained"]
    vlib.pmap(lambda f: f(), [lambda: model(chk, "CsaErr", "CsaErr")] +
              [lambda f=f: model(chk, "CsaErr", "CsaErr", workers=1, patch=[(r'Bug = ""', f'Bug = "{f}"')], expect_ok=False) for f in (fs if vlib.TIER == "thorough" else fs[:2])])
    traces(chk, "default", small_single(r, "dec", 5, lens=(16, 24, 29, 40)))

# ============================================================ C08
def C08(chk):
    r = rng("C08")
    fl = "stray,cw,desc,badfree"
    jobs = []
    def units(n, k):
        bs = real_size(n); us = []
        for _ in range(k):
            u = Unit(amode=2); u.key(0, "s", cw(r), r.choice(["e", 0])); u.key(1, "b", cw(r), r.choice(["e", 0]))
            for _ in range(6):                          # both ends of the accessible memory
                l = r.choice([plen(r), r.randint(0, 40), r.randint(185, 700)]); p = payload(r, l); op = r.choice(["enc", "dec"])
                r1 = r.randrange(2)
                u.fresh_region(r1, max(l, 1)); u.buf(0, r1, "e", p); u.one(op, 0, 0)
                u.buf(0, r1, 0, p); u.one(op, 0, 0)
                if l < 4000:
                    u.buf(0, r1, r.randint(1, 60), p); u.one(op, 0, 0)
            for _ in range(2):
                k2 = r.choice([0, 1, 2, 5, r.randint(0, bs), bs])
                ix = []; m = r.choice([184, 184, 8 * r.randint(0, 23)])
                for i in range(k2):
                    p = payload(r, r.choice([plen(r), plen(r), r.randint(0, 16), r.randint(150, 260)]))
                    rg = 10 + i
                    u.region(rg, 4096); u.buf(1 + i, rg, r.choice(["e", "e", 0, r.randint(1, 3000)]), p); ix.append(1 + i)
                u.batch(r.choice(["enc", "dec"]), 1, m, r.choice([0, 0, 2, 3]), ix)
            u.set(0, cw(r), "e"); u.set(1, cw(r), 0); u.set(1, cw(r), "e"); u.set(0, cw(r), 0)
            us.append(u.L)
        # every length at the very end and start of memory
        for l in range(0, 260 if n == "default" else 200, 1 if not V[n].emu else 7):
            u = Unit(amode=2); u.key(0, "s", cw(r)); u.key(1, "b", cw(r)); u.fresh_region(0, max(l, 1)); p = payload(r, l)
            for off in ("e", 0):
                for op in ("enc", "dec"):
                    u.buf(0, 0, off, p); u.one(op, 0, 0); u.buf(0, 0, off, p); u.batch(op, 1, 184, 0, [0])
                    u.buf(0, 0, off, p); u.batch(op, 1, min(184, 8 * r.randint(0, l // 8 + 1)), 0, [0])
            us.append(u.L)
        # packets of one batch directly next to one another
        for _ in range(max(2, k // 4)):
            u = Unit(amode=2); u.key(1, "b", cw(r)); u.region(0, 4096 * 16); k2 = r.randint(2, min(bs, 64)); o = r.randint(0, 20); ix = []
            for i in range(k2):
                p = payload(r, plen(r)); u.buf(i, 0, o, p); o += len(p) + r.choice([0, 0, 0, 4]); ix.append(i)
            u.batch(r.choice(["enc", "dec"]), 1, 184, 0, ix[::2]); u.batch(r.choice(["enc", "dec"]), 1, 184, 0, ix); us.append(u.L)
        return us
    for n in BASE14 + ["sse2-posix", "avx2-posix", "uint64-i386", "sse2-debug"]:
        k = scale(4 if V[n].emu else 25)
        jobs.append((n, units(n, k), "none", fl, dict(chunks=2)))
    us = []
    for L in (65535, 65536, 65544, 200000, 1 << 20):
        for off in ("e", 0):
            for op in ("enc", "dec"):
                u = Unit(amode=2); u.key(0, "s", cw(r)); u.fresh_region(0, L); u.buf(0, 0, off, r.randbytes(L)); u.one(op, 0, 0); us.append(u.L)
                u = Unit(amode=2); u.key(0, "b", cw(r)); u.fresh_region(0, L); u.buf(0, 0, off, r.randbytes(L)); u.batch(op, 0, r.choice([184, 8, 64]), 0, [0]); us.append(u.L)
    jobs.append(("default", us, "none", fl, dict(chunks=2)))
    verify(chk, jobs)
    bulk(chk, "frame")
    engine.fuzz(chk, ["frame"])
    library_model(chk, ["default"], "none", fl)
    batch_model(chk, ["uint32"], "none", fl)
    traces(chk, "default", small_single(r, "enc", 3) + small_single(r, "dec", 3), cipher="ref")

# ============================================================ C09, C10, C12
def history(r, bs, steps, handles, batch=True, recycle=0, amode=0, nb=6, top=48):
    """A random history over a number of contexts."""
    u = Unit(recycle=recycle, amode=amode)
    st = {}
    pool = [cw(r) for _ in range(2)]
    pool += [near(r, pool[0]), near(r, pool[0]), near(r, pool[1]), pool[0][:4] + pool[1][4:]]
    last = None
    for _ in range(steps):
        k = r.random()
        live = [h for h in st if st[h][1] is not None]
        if k < .12 or not st:
            h = r.choice([x for x in range(handles) if x not in st] or [None])
            if h is None:
                continue
            kind = r.choice("sb") if batch else "s"
            u.alloc(h, kind); st[h] = [kind, None]
        elif k < .18 and len(st) > 1:
            h = r.choice(list(st)); u.free(h); del st[h]
        elif k < .50 or not live:
            h = r.choice(list(st)); w = r.choice(pool)
            if st[h][1] and r.random() < .35:
                w = near(r, st[h][1])
            if st[h][1] and r.random() < .15:
                w = st[h][1]
            if r.random() < .1:
                pool.append(cw(r))
            u.set(h, w, r.choice(["e", 0, 8, 8, 8, r.randrange(64)])); st[h][1] = w
        else:
            h = last if last in live and r.random() < .4 else r.choice(live)
            last = h
            op = r.choice(["enc", "dec"])
            if st[h][0] == "s":
                i = r.randrange(nb)
                if r.random() < .8 or f"buf{i}" not in u.reg:
                    u.region(0, 4096); u.buf(i, 0, i * 640, payload(r, r.choice([r.randint(8, top), r.randint(0, 200), 8]))); u.reg[f"buf{i}"] = 1
                u.one(op, h, i)
            else:
                n = r.choice([1, 1, 2, 3, r.randint(0, min(bs, 12))])
                u.batch(op, h, r.choice([184, 48, 8 * r.randint(0, 23)]), r.choice([0, 3]), u.packets(r, [payload(r, r.choice([r.randint(8, top), plen(r)])) for _ in range(n)], first=20))
    for h in st:
        u.free(h)
    return u.L

def C09(chk):
    r = rng("C09")
    jobs = []
    for n in BASE14:
        bs = real_size(n)
        k = scale(6 if V[n].emu else 70 if n == "default" else 22)
        us = [history(r, bs, r.choice([12, 25, 60]), r.choice([1, 1, 2, 3]), recycle=r.choice([0, 1, 1]), amode=r.choice([0, 0, 1, 2])) for _ in range(k)]
        # the same context through pairs of similar words, in both orders, with and without use in between
        for kind in "sb":
            for _ in range(scale(2 if V[n].emu else 16)):
                u = Unit(); u.alloc(0, kind); a = cw(r)
                for _ in range(6):
                    b = near(r, a)
                    seq = r.choice([[a, b], [a, b, a], [a, a, b], [b, a, b, b], [a, b, b, a]])
                    for j, w in enumerate(seq):
                        u.set(0, w, r.choice(["e", 8, 8]))
                        if r.random() < .7 or j == len(seq) - 1:
                            p = payload(r, r.choice([8, 9, 16, 20, 184]))
                            if kind == "s":
                                u.single(r.choice(["enc", "dec"]), 0, p)
                            else:
                                u.batch(r.choice(["enc", "dec"]), 0, 184, 0, u.packets(r, [p]))
                    a = r.choice([a, b, cw(r)])
                us.append(u.L)
        # freed and allocated again at the same address, set to the same or another word
        for kind in "sb":
            u = Unit(recycle=1, amode=1); ws = [cw(r) for _ in range(2)]; ws.append(near(r, ws[0]))
            for j in range(10):
                u.key(0, kind, r.choice(ws))
                p = payload(r, 20)
                if kind == "s":
                    u.single("enc", 0, p); u.one("dec", 0, 0); u.single("dec", 0, p)
                else:
                    u.batch("enc", 0, 24, 0, u.packets(r, [p])); u.batch("dec", 0, 24, 0, [0])
                u.free(0)
            us.append(u.L)
        jobs.append((n, us, "ref:same", "cw", dict(chunks=3 if n == "default" else 2, how="fresh")))
    # long use of one context
    us = []
    for kind in "sb":
        u = Unit(); u.key(0, kind, cw(r)); ps = [payload(r, 24) for _ in range(8)]
        for j in range(scale(600, 5)):
            p = ps[j % 8]
            if kind == "s":
                u.single("enc" if j % 3 else "dec", 0, p)
            else:
                u.batch("enc" if j % 3 else "dec", 0, 24, 0, u.packets(r, [p]))
            if j % 97 == 96:
                u.set(0, cw(r))
        us.append(u.L)
    jobs.append(("default", us, "ref:same", "cw", dict(chunks=2, how="fresh")))
    verify(chk, jobs)
    bulk(chk, "word")
    alias(chk, "aliasw")
    engine.fuzz(chk, ["word"])
    wear(chk, "set_use", "set", "bset", "buse")
    library_model(chk, ["default", "sse2"], "ref:same", how="fresh")
    traces(chk, "default", [history(r, 4, 25, 2, top=24) for _ in range(scale(8, 4))], cipher="ref", refkind="same")

def C10(chk):
    r = rng("C10")
    jobs = []
    for n in BASE14:
        bs = real_size(n)
        k = scale(5 if V[n].emu else 60 if n == "default" else 18)
        us = [history(r, bs, r.choice([30, 60, 150]), r.choice([2, 3, 5, 20, 60]), recycle=r.choice([0, 1]), amode=r.choice([0, 0, 1, 2])) for _ in range(k)]
        for _ in range(scale(1 if V[n].emu else 6)):
            # many contexts set up first, used in another order, some freed in between
            u = Unit(); ks = {}
            base = cw(r)
            for h in range(r.choice([8, 16, 33, 60])):
                ks[h] = r.choice("sb"); u.key(h, ks[h], r.choice([base, near(r, base), cw(r)]))
            for _ in range(40):
                h = r.choice(list(ks))
                if r.random() < .08 and len(ks) > 2:
                    u.free(h); del ks[h]; continue
                p = payload(r, r.choice([8, 16, 20, 40]))
                if ks[h] == "s":
                    u.single(r.choice(["enc", "dec"]), h, p)
                else:
                    u.batch(r.choice(["enc", "dec"]), h, 184, 0, u.packets(r, [p, p], first=20))
            us.append(u.L)
        jobs.append((n, us, "ref:same", "stray", dict(chunks=3 if n == "default" else 2, how="fresh")))
    verify(chk, jobs)
    bulk(chk, "ctx")
    alias(chk, "aliasw")
    engine.fuzz(chk, ["ctx"])
    wear(chk, "set_use", "use", "buse")
    library_model(chk, ["default", "avx2"], "ref:same", how="fresh")
    traces(chk, "default", [history(r, 4, 30, 4, top=24) for _ in range(scale(8, 4))], cipher="ref", refkind="same")

def C12(chk):
    r = rng("C12")
    fl = "leak,badfree,dup,spurious,stray"
    jobs = []
    def use(u, h, kind):
        p = payload(r, r.choice([8, 16, 30, 184]))
        if kind == "s":
            u.single(r.choice(["enc", "dec"]), h, p)
        else:
            u.batch(r.choice(["enc", "dec"]), h, 184, 0, u.packets(r, [p, payload(r, 24)], first=20))
    names = list(V) if vlib.TIER == "thorough" else BASE14 + ["sse2-posix", "avx2-posix", "uint64-malloc", "uint32-malloc"]
    for n in names:
        bs = real_size(n); us = []
        for _ in range(scale(3 if V[n].emu else 14)):
            am = r.choice([1, 1, 2, 0]); u = Unit(amode=am, recycle=r.choice([0, 1])); st = {}
            for _ in range(r.choice([10, 30, 60])):
                k = r.random(); h = r.randrange(8)
                if k < .45 and h not in st:
                    kind = r.choice("sb")
                    if r.random() < .4:
                        u.alloc(h, kind, r.choice([1, 1, 2, 3, 4, "=1", "=2", "a", "a"])); u(f"probe {h} {hx(cw(r))}")
                        u.free(h)                                   # whatever it returned
                    else:
                        u.alloc(h, kind); u.set(h, cw(r)); st[h] = kind; use(u, h, kind)
                elif k < .65 and st:
                    h = r.choice(list(st)); u.free(h); del st[h]
                elif st:
                    h = r.choice(list(st))
                    if r.random() < .4:
                        u.set(h, cw(r))
                    use(u, h, st[h])
            us.append(u.L)
        for am in (0, 1, 2):
            for kind in "sb":
                # failures at every allocator call, with live contexts around
                u = Unit(amode=am); u.key(0, "s", cw(r)); u.key(1, "b", cw(r))
                for f in [1, 2, 3, 4, 5, "=1", "=2", "=3", "a"]:
                    u.alloc(2, kind, f); u(f"probe 2 {hx(cw(r))}"); u.free(2); use(u, 0, "s"); use(u, 1, "b")
                for o in r.sample([0, 1], 2):
                    u.free(o)
                us.append(u.L)
                # many at once, freed in various orders
                u = Unit(amode=am, recycle=1 if am else 0)
                for rep in range(2):
                    ks = {h: r.choice("sb") for h in range(12)}
                    for h in ks:
                        u.key(h, ks[h], cw(r))
                    o = list(ks); r.shuffle(o)
                    for h in o[:6]:
                        use(u, h, ks[h])
                    for h in o:
                        u.free(h)
                us.append(u.L)
        jobs.append((n, us, "ref:same", fl, dict(chunks=2, how="ref")))
    # a great many contexts held, with allocations that fail at every number of them
    for n in names:
        us = []
        for kinds in (["s", "b", "sb"] if V[n].native else ["sb"]):
            am = r.choice([0, 1, 2]); u = Unit(amode=am, recycle=r.choice([0, 1]) if am else 0); st = {}
            top = (60 if "b" in kinds and am else 150) if V[n].native else 40; t = r.choice("sb")
            for h in range(top):
                for f in [1, r.choice([2, "=1", "=2", 3, "=3"])] + (["a"] if t == "b" else []):
                    k = r.choice(kinds) if f != "a" else "b"
                    u.alloc(500, k, f); u(f"probe 500 {hx(cw(r))}"); u.free(500)
                st[h] = k = r.choice(kinds); u.key(h, k, cw(r))
                if h % 16 == 5:
                    o = r.choice(list(st)); use(u, o, st[o])
            o = list(st); r.shuffle(o)
            for i, h in enumerate(o):
                if i % 8 == 3:
                    use(u, h, st[h]); k = r.choice(kinds); u.alloc(500, k, r.choice([1, 2, "=2"])); u(f"probe 500 {hx(cw(r))}"); u.free(500)
                u.free(h)
            us.append(u.L)
        jobs.append((n, us, "ref:same", fl, dict(chunks=1, how="ref")))
    verify(chk, jobs)
    wear(chk, "life", "blife", "set_use")
    library_model(chk, ["default", "avx2", "sse2-posix"], "ref:same", fl)
    ts = []
    for _ in range(scale(6, 4)):
        u = Unit(amode=r.choice([0, 1])); u.key(0, "s", cw(r)); u.alloc(1, "b", 1); u.free(1); u.key(2, "b", cw(r)); use(u, 0, "s"); u.alloc(3, "s", 1); u.free(3)
        u.free(0); u.key(0, "s", cw(r)); use(u, 0, "s"); ts.append(u.L)
    traces(chk, "default", ts, cipher="ref", refkind="same")

# ============================================================ C13
def C13(chk):
    r = rng("C13")
    names = list(V)
    vlib.build_all(names)
    sizes = {n: real_size(n) for n in names}
    def units(k, bs, exact=None, bm=None):
        us = []
        for _ in range(k):
            c = cw(r); u = Unit(amode=r.choice([0, 1])); u.key(0, "s", c, r.choice(["e", 0, 1, 5])); u.key(1, "b", r.choice([c, cw(r)]), r.choice(["e", 0, 3]))
            for _ in range(3):
                u.single(r.choice(["enc", "dec"]), 0, payload(r, r.choice([plen(r), plen(r), r.randint(185, 400)])), rnd=r)
            n = exact if exact is not None else r.choice([0, 1, 2, 3, 4, 5, bs, bs, bs - 1, r.randint(0, bs)])
            ix = u.packets(r, mix(r, [payload(r, r.choice([plen(r), plen(r), 184, r.randint(0, 220)])) for _ in range(n)]))
            u.batch(r.choice(["enc", "dec"]), 1, r.choice([184, 184, 8 * r.randint(0, 23)]), r.choice([0, 3]) if bm is None else bm, ix)
            if r.random() < .3:
                u.batch(r.choice(["enc", "dec"]), 1, 184, bm or 0, ix)
            us.append(u.L)
        return us
    tasks = []
    for b in sorted(set(sizes.values())):
        group = [n for n in names if sizes[n] >= b]
        if len(group) > 1:
            for _ in range(2):
                tasks.append((group, units(scale(14, 6) if b < 256 else scale(10, 6), b)))
    # natively much more
    nat = [n for n in names if not V[n].emu]
    for b in sorted({sizes[n] for n in nat}):
        group = [n for n in nat if sizes[n] >= b]
        if len(group) > 1:
            tasks.append((group, units(scale(60), b)))
    # packets that agree in runs; with mode 4 a smaller batch size takes several calls
    tasks.append((names, structured(r, 256, mode=4)))
    tasks.append((names, units(scale(4, 6), 256, 256, 4)))
    tasks.append((names, [u for n in range(0, 33) for u in units(1, 32, n)]))
    # block and stream cipher inputs of every byte value in every position
    us = []
    for v in range(0, 256, 32):
        u = Unit(); u.key(0, "s", r.randbytes(8)); u.key(1, "b", r.randbytes(8))
        ps = [bytes([v + i]) * 16 for i in range(32)]
        ix = u.packets(r, ps); u.batch("enc", 1, 16, 0, ix); u.batch("dec", 1, 16, 0, u.packets(r, ps))
        for p in ps[:8]:
            u.single("enc", 0, p); u.single("dec", 0, p)
        us.append(u.L)
    for i in range(64):
        u = Unit(); c = bytearray(8); c[i // 8] = 1 << (i % 8); u.key(0, "s", bytes(c)); u.key(1, "b", bytes(c)); p = r.randbytes(24); u.single("enc", 0, p)
        u.batch("enc", 1, 24, 0, u.packets(r, [p] * 3)); us.append(u.L)
    tasks.append((names, us))
    chk.cov["configurations"] = names
    for group, us in tasks:
        s, o = engine.same_everywhere(chk, group, us)
        chk.count(histories=len(us))
    big = vlib.TIER == "thorough"
    engine.bulk_same(chk, names, [(names, 0, 8000 if big else 400)])
    engine.bulk_same(chk, nat, [(nat, 10**6 + i, 10**6 + i + 12000) for i in range(0, 600000 if big else 12000, 12000)])
    chk.sample({"configurations": group, "history": [l[:120] for l in us[0][:8]]})
    slice_model(chk, names, faults=["permutation mask", "tap"])
    # a sample of the traces of several configurations, against the default one, in TLC
    sm = units(scale(4, 3), 6)
    sm = [[l for l in u] for u in sm]
    for n in (["avx2", "uint32-ppc64be"] if vlib.TIER == "quick" else nat + ["uint32-ppc64be", "neon-aarch64", "uint64-ppc64be-altsbox"]):
        traces(chk, n, sm, cipher="ref", refkind="same", refname="default", how="ref", selftest=n == "avx2")

# ============================================================ C14
def C14(chk):
    r = rng("C14")
    def words():
        bases = [r.randbytes(8), bytes(8), b"\xff" * 8, csum(r.randbytes(8))]
        out = []
        for b in bases:
            out.append(b)
            for i in range(64):
                c = bytearray(b); c[i // 8] ^= 1 << (i % 8); out.append(bytes(c))
        for i in range(8):
            for v in range(256):
                c = bytearray(8); c[i] = v; out.append(bytes(c))
        b = r.randbytes(8)
        for i in range(8):
            for v in range(256):
                c = bytearray(b); c[i] = v; out.append(bytes(c))
        for _ in range(scale(400)):
            c = r.randbytes(8); out += [c, csum(c)]
            c = bytearray(csum(c)); c[r.choice([3, 7])] ^= 1 << r.randrange(8); out.append(bytes(c))
        out += cw_special()
        for v in range(256):
            out.append(bytes([v]) * 8)
        return out
    def units(ws, batch, per=20):
        us = []
        for k in range(0, len(ws), per):
            u = Unit()
            if batch:
                u.alloc(0, "b")
            else:
                u.alloc(0, "s")
            for w in ws[k:k + per]:
                u.set(0, w, r.choice(["e", 0, 8]))
                p = r.randbytes(r.choice([8, 16, 23]))
                op = r.choice(["enc", "dec"])
                if batch:
                    q = [p, r.randbytes(16)][:r.choice([1, 2])]
                    u.batch(op, 0, 24, 0, u.packets(r, q))
                else:
                    u.single(op, 0, p)
            us.append(u.L)
        return us
    jobs = []
    for n in BASE14:
        ws = words()
        if V[n].emu:
            ws = r.sample(ws, scale(400, 5))
        elif n not in ("default", "uint32", "avx2"):
            ws = r.sample(ws, min(len(ws), scale(1500)))
        jobs.append((n, units(ws, True), "spec", "-", dict(chunks=2)))
        if n in ("default", "uint64-ppc64be", "neon-aarch64", "uint32"):
            jobs.append((n, units(ws, False), "spec", "-", dict(chunks=2)))
    verify(chk, jobs)
    ws = words(); r.shuffle(ws)
    traces(chk, "default", units(ws[:scale(60, 3)], False) + units(ws[-scale(60, 3):], True))
    bulk(chk, "cw", foreign=[])
    alias(chk, "aliass")
    engine.fuzz(chk, ["cw"])
    vectors(chk)

# ============================================================ C15
def C15(chk):
    r = rng("C15")
    jobs = []
    specials = [2**31, 2**31 + 8, 2**31 - 8, 2**32 - 8, 2**32 - 1, 65536, 65536 + 8, 65536 + 184, 65536 + 12, 256 + 184, 256 + 8, 192, 188, 1 << 20,
                2**16 + 64, 2**24 + 8, 2**31 + 184, 2**32 - 184, 1000, 1024, 2**8, 2**8 + 64, 2**30 + 8]
    for n in BASE14:
        bs = real_size(n)
        lim = list(range(0, 260 if not V[n].emu else 200)) + specials
        if V[n].emu:
            lim = sorted(set(r.sample(range(0, 260), scale(40, 4)) + [1, 4, 7, 183, 185, 188, 191, 192, 12, 180] + specials[:8]))
        us = []
        for op in ("benc", "bdec"):
            for c in range(0, len(lim), 20):
                u = Unit(); u.key(0, "b", cw(r))
                for m in lim[c:c + 20]:
                    k = r.choice([0, 1, 1, 2, 3, r.randint(0, min(bs, 20)), bs if r.random() < .2 else 4])
                    ix = u.packets(r, [payload(r, r.choice([plen(r), r.randint(8, 40), 184])) for _ in range(k)])
                    u(f"try {op} 0 {m} " + " ".join(map(str, ix)))
                us.append(u.L)
        jobs.append((n, us, "none", "-", dict(chunks=2)))
    verify(chk, jobs)
    bulk(chk, "limits", total=50, cap=60_000)
    engine.fuzz(chk, ["limits"])
    library_model(chk, ["default", "mmx"], "none")
    ts = []
    for m in (0, 4, 8, 12, 184, 185, 192, 2**31, 2**32 - 8):
        u = Unit(); u.key(0, "b", cw(r)); ix = u.packets(r, [r.randbytes(12), r.randbytes(24)]); u(f"try {r.choice(['benc', 'bdec'])} 0 {m} 0 1"); ts.append(u.L)
    traces(chk, "default", ts, cipher="ref", refkind="same")

# ============================================================ C16
def C16(chk):
    r = rng("C16")
    fl = "net,output,fp,badfree"
    jobs = []
    for n in BASE14 + ["mmx-altsbox", "mmx-clang"]:
        bs = real_size(n); us = []
        for j in range(scale(8 if V[n].emu else 50)):
            u = Unit(amode=r.choice([0, 1])); u.alloc(0, "s"); u.alloc(1, "b")
            if r.random() < .8:
                u("opfail 1")
            u(f"fpenv {j % 5}")
            u.set(0, cw(r)); u.set(1, cw(r))
            for _ in range(3):
                u(f"fpenv {r.randrange(5)}")
                u.single(r.choice(["enc", "dec"]), 0, payload(r, r.choice([plen(r), r.randint(185, 3000), r.choice([0, 7, 8])])))
                k = r.choice([0, 1, 2, bs, r.randint(0, bs)])
                u.batch(r.choice(["enc", "dec"]), 1, r.choice([184, 8 * r.randint(0, 23), 0]), r.choice([0, 3]), u.packets(r, [payload(r, plen(r)) for _ in range(k)]))
                if r.random() < .4:
                    u.set(r.randrange(2), r.choice([cw(r), bytes(8)]))
            us.append(u.L)
        # every limit, both operations
        for m in range(0, 185, 8 if not V[n].emu else 40):
            u = Unit(); u.key(1, "b", cw(r)); u(f"opfail 1"); u(f"fpenv {r.randrange(5)}")
            for op in ("enc", "dec"):
                for k in (0, 1, 4):
                    u.batch(op, 1, m, 0, u.packets(r, [payload(r, plen(r)) for _ in range(k)]))
            us.append(u.L)
        jobs.append((n, us, "ref:same", fl, dict(chunks=2, how="ref")))
        # whatever is asked of the environment is there
        u = Unit(); u("env 1"); eu = [u.L]
        for j in range(6):
            u = Unit(amode=r.choice([0, 1]), ); u.key(0, "s", cw(r)); u.key(1, "b", cw(r)); u(f"fpenv {j % 5}")
            for op in ("enc", "dec"):
                u.single(op, 0, payload(r, r.choice([3, 8, 30, 184, 300]))); u.batch(op, 1, r.choice([184, 184, 96, 0]), 0, u.packets(r, [payload(r, plen(r)) for _ in range(r.choice([0, 1, 4, bs]))]))
            u.free(0); u.free(1); eu.append(u.L)
        jobs.append((n, eu, "ref:same", fl, dict(chunks=1, how="ref")))
    us = []
    for L in (4096, 65536, 1 << 20):
        for op in ("enc", "dec"):
            u = Unit(); u.key(0, "s", cw(r)); u("opfail 1"); u.single(op, 0, r.randbytes(L + 3)); us.append(u.L)
    jobs.append(("default", us, "ref:same", fl, dict(chunks=1)))
    verify(chk, jobs)
    library_model(chk, ["mmx", "default"], "none", fl, extra=["opfail 1", "fpenv 2"])
    traces(chk, "default", [["reset", "opfail 0", "fpenv 3"] + u[1:] for u in small_single(r, "enc", 4) + small_single(r, "dec", 4)], cipher="ref")

# ============================================================ C17
def C17(chk):
    r = rng("C17")
    jobs = []
    for n in BASE14:
        bs = real_size(n); us = []
        emu = bool(V[n].emu)
        if n in ("default", "uint32", "uint64-ppc64be", "neon-aarch64", "avx2"):
            for l in ([8, 16, 17, 31, 40, 184] if not emu else [24, 33]):
                for op in ("enc", "dec"):
                    u = Unit(); u.key(0, "s", cw(r), r.randrange(16)); p = payload(r, l); u.region(0, 8192)
                    for off in range(0, 64):
                        u.buf(0, 0, off, p); u.one(op, 0, 0)
                    for off in range(4096 - l - 3, 4096 + 3, 1 if not emu else 5):      # across a page boundary
                        u.buf(0, 0, off, p); u.one(op, 0, 0)
                    us.append(u.L)
        for off in range(0, 64, 1 if not emu else 9):
            u = Unit(); c = cw(r); u.key(1, "b", c, off); u.key(0, "s", c, off); u.region(0, 65536)
            k = r.choice([1, 3, 8, bs]); ps = [payload(r, plen(r)) for _ in range(k)]
            for op in ("enc", "dec"):
                o = off
                for i, p in enumerate(ps):                 # directly adjacent
                    u.buf(i, 0, o, p); o += len(p)
                u.batch(op, 1, 184, r.choice([0, 2, 3]), list(range(k)))
                jx = list(range(k)); r.shuffle(jx)
                o = off                                     # adjacent, listed in another order
                for i, p in enumerate(ps):
                    u.buf(i, 0, o, p); o += len(p)
                u.batch(op, 1, r.choice([184, 96]), 3, jx)
            us.append(u.L)
        for _ in range(scale(3 if emu else 25)):
            u = Unit(); u.key(1, "b", cw(r), r.randrange(64)); k = r.choice([2, 5, bs]); u.region(0, 4096 * 20); ix = []
            o = 4096 - r.randint(0, 200)
            for i in range(k):
                p = payload(r, plen(r)); u.buf(i, 0, o, p); o += len(p) + r.choice([0, 1, 2, 3, 5, 7, 8, 60])
            ix = list(range(k)); r.shuffle(ix)
            u.batch(r.choice(["enc", "dec"]), 1, 184, r.choice([0, 2, 3]), ix)
            us.append(u.L)
        # the key context elsewhere
        for am in (0, 1):
            u = Unit(amode=am); c = cw(r)
            for h in range(4):
                u.key(h, "sb"[h % 2], c, r.randrange(64))
            p = payload(r, 40); u.region(0, 4096)
            for h in range(4):
                u.buf(0, 0, 64 * h + h, p)
                if h % 2:
                    u.batch("enc", h, 40, 0, [0])
                else:
                    u.one("enc", h, 0)
            us.append(u.L)
        jobs.append((n, us, "ref:same", "-", dict(chunks=3 if n == "default" else 2)))
    us = []
    for off in (1, 3, 8, 4095):
        u = Unit(); u.key(0, "s", cw(r)); u.region(0, 80000); p = r.randbytes(66001); u.buf(0, 0, off, p); u.one("enc", 0, 0); u.buf(0, 0, off, p); u.one("dec", 0, 0); us.append(u.L)
    jobs.append(("default", us, "ref:same", "-", dict(chunks=1)))
    verify(chk, jobs)
    bulk(chk, "place")
    engine.fuzz(chk, ["place"])
    ts = []
    for off in (0, 1, 5, 62):
        u = Unit(); u.key(0, "s", cw(r), off); u.region(0, 4096); p = r.randbytes(20)
        for o in (off, off + 1, 4090 - 20):
            u.buf(0, 0, o, p); u.one("enc", 0, 0)
        ts.append(u.L)
    traces(chk, "default", ts, cipher="ref", refkind="same")
    traces(chk, "uint32", batch_units(r, 6, scale(3, 4), top=30), cipher="ref", refkind="same")

# ============================================================ C18
def C18(chk):
    r = rng("C18")
    jobs = []
    for n in BASE14:
        bs = real_size(n); us = []
        emu = bool(V[n].emu)
        ns = list(range(0, bs + 1, 1 if not emu else 6)) + [0, 1, bs, bs, bs - 1]
        for k in ns:
            u = Unit(); u("size"); u.key(1, "b", cw(r)); c = r.choice([8, 16, 24, 40, 184])
            ps = [payload(r, r.choice([c, plen(r, c)])) for _ in range(k)]
            spare = [payload(r, plen(r, 184)) for _ in range(2)]
            ix = u.packets(r, spare + ps)               # the spare ones are what garbage entries point to
            u.batch(r.choice(["enc", "dec"]), 1, (c + 7) // 8 * 8, r.choice([1, 1, 1, 0, 2, 3]), ix[2:])
            u("size")
            if r.random() < .2:
                u.batch(r.choice(["enc", "dec"]), 1, 184, 1, [])
            us.append(u.L)
        for _ in range(scale(1 if emu else 6)):
            u = Unit(); u.key(1, "b", cw(r))
            seqn = [0, bs, 1, bs - 1, 0, 2, bs, r.randint(0, bs)]; r.shuffle(seqn)
            for k in seqn:
                u.batch(r.choice(["enc", "dec"]), 1, 24, r.choice([0, 1]), u.packets(r, [payload(r, plen(r, 24)) for _ in range(k)])); u("size")
            us.append(u.L)
        jobs.append((n, us, "ref:same", "stray,desc", dict(chunks=2)))
    verify(chk, jobs)
    bulk(chk, "term")
    engine.fuzz(chk, ["term"])
    batch_model(chk, ["default", "neon-aarch64"], "ref:same", "stray,desc", after=True)
    library_model(chk, ["default"], "none", "stray,desc")
    ts = []
    for k in (0, 1, 3, 32):
        u = Unit(); u("size"); u.key(1, "b", cw(r)); ix = u.packets(r, [r.randbytes(9)] + [payload(r, r.randint(0, 17)) for _ in range(k)]); u.batch("enc", 1, 16, 1, ix[1:]); ts.append(u.L)
    traces(chk, "uint32", ts, cipher="ref", refkind="same")

# ============================================================ model-generated behaviours
def library_model(chk, names, mode, flags="-", how="ref", extra=()):
    """Explore CsaLib exhaustively in small, and replay every transition of its graph."""
    r = rng(chk.pid, "walk")
    cfgs = [[(r"SHandles = .*", "SHandles = {0}"), (r"BHandles = .*", "BHandles = {2}"), (r"Addrs = .*", "Addrs = {1, 2}"), (r"VIEW HistView", "VIEW GraphView")],
            [(r"Bufs = .*", "Bufs = {0}"), (r"Limits = .*", "Limits = {8, 184}"), (r"VIEW HistView", "VIEW GraphView")]]
    small = [(r"SHandles = .*", "SHandles = {0}"), (r"Addrs = .*", "Addrs = {1, 2}"), (r"Bufs = .*", "Bufs = {0}"), (r"Depth = 1", "Depth = 2"), (r"Limits = .*", "Limits = {8, 184}")]
    jobs = [lambda: model(chk, "CsaLibMC", "CsaLibMC", workers=2, patch=small)]
    if vlib.TIER == "thorough":
        jobs.append(lambda: model(chk, "CsaLibMC", "CsaLibMC", workers=4))
    got = {}
    def emit(i):
        p = cfgs[i] + [(r"CHECK_DEADLOCK", "ACTION_CONSTRAINT EmitStep\nCHECK_DEADLOCK")]
        got[i] = model(chk, "CsaLibMC", "CsaLibMC", workers=1, patch=p)
    use = [0, 1] if vlib.TIER == "thorough" else [0]
    jobs += [lambda i=i: emit(i) for i in use]
    faults = ["aliased word", "set skipped if set", "one key for all", "past the terminator", "failed allocation leaks", "limit rounded",
              "word known by its digest", "schedules shared by digest", "a set is lost when a count overflows", "a set returns when a count overflows", "one address for two"]
    pick = faults if vlib.TIER == "thorough" else FAULT.get(chk.pid, ["set skipped if set"])
    bad = cfgs[0][:3] + [(r"Words = .*", "Words = {1, 2, 3}")]
    jobs += [lambda f=f: model(chk, "CsaLibMC", "CsaLibMC", workers=1, patch=bad + [(r'Bug = ""', f'Bug = "{f}"')], expect_ok=False) for f in pick]
    vlib.pmap(lambda f: f(), jobs)
    for i in use:
        walks = cover(printed(got[i], "STEP"), r)
        us = [walk_unit(w, r, extra, 17 if i == 0 else 17) for w in walks]
        chk.count(model_transitions_replayed=sum(len(w) for w in walks))
        verify(chk, [(n, us, mode, flags, dict(chunks=3, how=how)) for n in names])
FAULT = {"C03": ["aliased word"], "C08": ["one key for all"],
         "C09": ["set skipped if set", "word known by its digest", "a set is lost when a count overflows"],
         "C10": ["one key for all", "schedules shared by digest", "a set returns when a count overflows"],
         "C12": ["failed allocation leaks", "one address for two"],
         "C15": ["limit rounded"], "C16": ["aliased word"], "C18": ["past the terminator"]}

def cover(steps, r):
    """Walks from the initial state that take every transition of the graph."""
    succ, start = {}, steps[0]["from"]
    for s in steps:
        succ.setdefault(s["from"], []).append([s["call"], s["to"], False])
    for v in succ.values():
        r.shuffle(v)
    left = {k: len(v) for k, v in succ.items()}
    total = sum(left.values())
    walks = []
    while total:
        cur, w, hops = start, [], 0
        while True:
            e = None
            if left.get(cur):
                e = next(x for x in succ[cur] if not x[2])
                path = [e]
            else:                                        # nearest state with something left
                seen, todo, path = {cur: None}, [cur], None
                while todo and path is None:
                    nx = []
                    for s in todo:
                        for x in succ.get(s, []):
                            if x[1] not in seen:
                                seen[x[1]] = (s, x); nx.append(x[1])
                                if left.get(x[1]):
                                    path = []; t = x[1]
                                    while seen[t]:
                                        path.append(seen[t][1]); t = seen[t][0]
                                    path.reverse(); nx = []; break
                        if path is not None:
                            break
                    todo = nx
                if path is None:
                    break
            src = cur
            for x in path:
                w.append(x[0])
                if not x[2]:
                    x[2] = True; left[src] -= 1; total -= 1
                src = x[1]
            cur = src
            if len(w) > 3000:
                break
        if not w:
            raise Broken("cannot cover the graph of behaviours")
        walks.append(w)
    return walks

def walk_unit(w, r, extra=(), len0=17):
    u = Unit()
    L = {0: len0, 1: 8}
    names = {1: cw(r), 2: None}; names[2] = near(r, names[1])
    cwm = 1
    u.region(0, 4096); u.region(1, 4096)
    mem = {}
    for b in L:
        u.buf(b, b, "e", r.randbytes(L[b]))
    opts = list(extra)
    kinds, used = {}, 0
    for c in w:
        op = c["op"]
        if op == "scribble":
            cwm = c["cw"]
        elif op == "alloc":
            h = c["h"]; k = "s" if h < 2 else "b"
            if c["reply"] == "ok":
                u.alloc(h, k)
            else:
                u.alloc(h, k, 1); u.free(h)
            if opts:
                u.L += opts; opts = []
        elif op == "free":
            u.free(c["h"])
        elif op == "set":
            u.set(c["h"], names[c["cw"]], r.choice(["e", 8, 8]))
        elif op in ("enc", "dec"):
            u.one(op, c["h"], c["b"])
        elif op in ("benc", "bdec"):
            if c["reply"] == "done":
                u.batch(op[1:], c["h"], c["m"], 1 if r.random() < .5 else 0, c["bs"])
            else:
                u(f"try {op} {c['h']} {c['m']} " + " ".join(map(str, c["bs"])))
        elif op == "size":
            u("size")
    return u.L

def proofs(chk, *modules):
    """The theorems without bounds, checked by TLAPS (thorough tier).  They say nothing about the
    library's code, so a proof that is not found - say, for want of time - is noted, not a violation."""
    if vlib.TIER != "thorough":
        return
    for m in modules:
        n = vlib.tlapm(m)
        if n:
            chk.count(proof_obligations=n)
            chk.sample(f"TLAPS: all {n} obligations of {m} proved")
        else:
            chk.assumptions.append(f"the proofs of {m} were not completed in this run")

def link_model(chk):
    """CSA is an instance of CsaRounds and CsaCore, of which the theorems speak."""
    big = vlib.TIER == "thorough"
    more = [(r"Runs = .*", "Runs = 0..40"), (r"Lens = .*", "Lens = 8..60")] if big else []
    jobs = [lambda: model(chk, "CsaLink", "CsaLink", workers=4, patch=more)]
    if big:
        jobs.append(lambda: model(chk, "CsaLink", "CsaLink", patch=[(r"Full = FALSE", "Full = TRUE"), (r"Runs = .*", "Runs = {2}"), (r"Lens = .*", "Lens = {8}")]))
    jobs += [lambda f=f: model(chk, "CsaLink", "CsaLink", patch=[(r'Bug = ""', f'Bug = "{f}"')], expect_ok=False)
             for f in ("keystream from the first block", "schedule upwards")]
    vlib.pmap(lambda f: f(), jobs)

def batch_model(chk, names, mode, flags="-", after=False):
    """Check the batch pipeline design and replay every batch composition explored."""
    r = rng(chk.pid, "batchmodel")
    jobs, got = [], {}
    big = vlib.TIER == "thorough"
    def main():
        p = [(r"CHECK_DEADLOCK", "ACTION_CONSTRAINT EmitBatch\nCHECK_DEADLOCK")]
        got["r"] = model(chk, "CsaBatch", "CsaBatch", workers=1, patch=p)
    jobs.append(main)
    if big:
        jobs.append(lambda: model(chk, "CsaBatch", "CsaBatch", workers=3, timeout=1500, patch=[(r"N = 2", "N = 3"), (r"Lens = .*", "Lens = {0, 5, 8, 15, 16, 24, 32}")]))
    faults = ["no clip", "past terminator", "chain not guarded", "keystream of neighbour", "limit stored"]
    pick = faults if big else [{"C04": "chain not guarded", "C05": "keystream of neighbour", "C06": "no clip", "C08": "limit stored", "C18": "past terminator"}.get(chk.pid, "keystream of neighbour")]
    jobs += [lambda f=f: model(chk, "CsaBatch", "CsaBatch", workers=1, patch=[(r'Bug = ""', f'Bug = "{f}"')], expect_ok=False) for f in pick]
    vlib.pmap(lambda f: f(), jobs)
    proofs(chk, "CsaSlotsProof")
    bs = printed(got["r"], "BATCH")
    if len(bs) < 100:
        raise Broken("no batches were generated by CsaBatch")
    us = []
    for k in range(0, len(bs), 10):
        u = Unit(); u.key(0, "b", cw(r))
        for b in bs[k:k + 10]:
            n = b["n"]
            ix = u.packets(r, [r.randbytes(9)] + [payload(r, l) for l in b["lens"][:n]])
            u.batch(b["op"], 0, b["m"], 1 if b["after"] else 0, ix[1:])
        us.append(u.L)
    chk.count(model_batches_replayed=len(bs))
    verify(chk, [(n, us, mode, flags, dict(chunks=2)) for n in names])

def slice_model(chk, names, runs=None, faults=()):
    """CsaSlice: the bit-sliced machines refine CSA's, lane by lane; every behaviour ends in
    packets and the results TLC computed with the sliced machines, which the library must give."""
    r = rng(chk.pid, "slice")
    big = vlib.TIER == "thorough"
    runs = runs or [0, 1] + r.sample(range(2, 900), 14 if big else 2)
    got = []
    def patch(kinds, runs, L):
        return [(r"Kinds = .*", "Kinds = {" + ",".join(f'"{k}"' for k in kinds) + "}"), (r"Runs = .*", "Runs = {" + ",".join(map(str, runs)) + "}"), (r"L = 6", f"L = {L}")]
    def main(rs):
        got.append(model(chk, "CsaSlice", "CsaSlice", workers=1, patch=patch(["stream", "enc", "dec"], rs, 6), timeout=850))
    jobs = [lambda: model(chk, "CsaSlice", "CsaSlice", workers=1, patch=patch(["matrix"], [2], 2))]
    jobs += [lambda rs=rs: main(rs) for rs in (runs[i::4] for i in range(4)) if rs]
    kind = {"network 3": "matrix", "permutation mask": "matrix", "network order": "matrix", "tap": "dec"}
    for f in (["network 3", "lane leak", "carry not kept", "window not moved", "nibbles swapped", "tap", "permutation mask", "network order"] if big else faults):
        jobs.append(lambda f=f: model(chk, "CsaSlice", "CsaSlice", workers=1, expect_ok=False, patch=patch([kind.get(f, "stream")], [2], 2) + [(r'Bug = ""', f'Bug = "{f}"')]))
    vlib.pmap(lambda f: f(), jobs)
    ends = [e for g in got for e in printed(g, "SLICED")]
    if len(ends) != 3 * len(runs):
        raise Broken(f"{len(ends)} final states of {3 * len(runs)} behaviours of CsaSlice")
    table = {f"s {e['op'][0]} {hx(bytes(e['cw']))} - {hx(bytes(p))}": hx(bytes(o)) for e in ends for p, o in zip(e["in"], e["out"])}
    def units(name):
        us = []
        for e in ends:
            u = Unit(); u.key(0, "b", bytes(e["cw"])); ps = [bytes(x) for x in e["in"]]
            u.batch(e["op"], 0, 184, 0, u.packets(r, ps))
            every = [r.choice(ps) for _ in range(real_size(name))]      # in all the lanes there are
            u.batch(e["op"], 0, len(ps[0]), 0, u.packets(r, every)); us.append(u.L)
        return us
    chk.count(sliced_behaviours=len(ends))
    engine.verify(chk, [(n, units(n), "ref:scalar", "-", dict(chunks=1, table=table)) for n in names])

def late(chk):
    """Near the end of the time a check has, one confirmed violation is enough."""
    while not chk.stopped():
        time.sleep(2)
    print(f"{chk.pid}: ended early", file=sys.stderr)
    rc = chk.finish()
    subprocess.run(["pkill", "-KILL", "-P", str(os.getpid())])
    vlib.cleanup(); os._exit(rc)

def run(pid):
    chk = vlib.Check(pid)
    if vlib.TIER == "quick":
        import threading
        t = threading.Timer(700, late, [chk]); t.daemon = True; t.start()
    try:
        if pid == "C11":
            import conc
            conc.C11(chk)
        elif pid == "C20":
            import cost
            cost.C20(chk)
        else:
            globals()[pid](chk)
    except Broken as e:
        if not chk.verd.v:                # a confirmed violation stands
            raise
        print(f"{pid}: not completed: {e}", file=sys.stderr)
    return chk.finish()
