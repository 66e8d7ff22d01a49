"""Scenario generators.  A unit is a list of scenario lines that starts with `reset'
and depends on nothing before it."""

HDR = bytes.fromhex("47")

def hx(b):
    return b.hex() or "-"

def cw_special():
    out = [bytes(8), b"\xff" * 8, bytes(range(8)), bytes.fromhex("0123456789abcdef"), bytes.fromhex("1111113322222266"),
           b"\x80" * 8, b"\x01" * 8, b"\x0f" * 8, b"\xf0" * 8, b"\xaa" * 8, b"\x55" * 8]
    # four applications of the key permutation leave these as they are, so the schedule repeats
    four = [bytes.fromhex(x) for x in ("d807042504101408", "2608408091e10821", "01b0b00a400ca240", "00400b502a024196")]
    for s in range(1, 15):
        out.append(bytes(sum(f[i] for k, f in enumerate(four) if s >> k & 1) for i in range(8)))
    out += [bytes.fromhex("1122334455667788"), bytes.fromhex("0123456776543210"), bytes.fromhex("00112233ffeeddcc"), bytes.fromhex("0102030405060708")]
    return out

def csum(c):
    c = bytearray(c)
    c[3] = (c[0] + c[1] + c[2]) & 255
    c[7] = (c[4] + c[5] + c[6]) & 255
    return bytes(c)

def cw(r):
    k = r.randrange(16)
    if k < 9:
        return r.randbytes(8)
    if k < 12:
        return csum(r.randbytes(8))
    if k == 12:
        return r.choice(cw_special())
    if k == 13:
        b = bytearray(8); b[r.randrange(8)] = r.randrange(256); return bytes(b)
    if k == 14:
        b = bytearray(b"\xff" * 8); b[r.randrange(8)] = r.randrange(256); return bytes(b)
    h = r.randbytes(4); return h + h

def near(r, c):
    """A control word that differs from c in a little."""
    b = bytearray(c)
    k = r.randrange(6)
    if k == 0:
        i = r.randrange(64); b[i // 8] ^= 1 << (i % 8)
    elif k == 1:
        b[r.randrange(8)] ^= r.randrange(1, 256)
    elif k == 2:
        b[4:] = r.randbytes(4)
    elif k == 3:
        b[:4] = r.randbytes(4)
    elif k == 4:
        b = bytearray(b[4:] + b[:4])
    else:
        b[7] = r.randrange(256); b[3] ^= 1
    return bytes(b)

def payload(r, n):
    k = r.randrange(20)
    if n == 0:
        return b""
    if k < 11:
        return r.randbytes(n)
    if k == 11:
        return bytes(n)
    if k == 12:
        return b"\xff" * n
    if k == 13:
        return bytes([r.randrange(256)]) * n
    if k == 14:
        return (r.randbytes(8) * (n // 8 + 1))[:n]
    if k == 15:
        return bytes((i + k) & 255 for i in range(n))
    if k == 16:
        return (b"\x00\x00\x01" + bytes([r.choice([0xe0, 0xc0, 0xbd, 0xb3])]) + r.randbytes(n))[:n]
    if k == 17:
        return (bytes(8) + r.randbytes(n))[:n]
    if k == 18:
        b = bytearray(n); b[r.randrange(n)] = 1 << r.randrange(8); return bytes(b)
    b = bytearray(r.randbytes(n)); j = r.randrange(n)
    b[j:] = bytes(n - j); return bytes(b)

def mix(r, datas, p=.3):
    """Sometimes make the packets of a batch resemble each other (lengths stay)."""
    n = len(datas)
    if n < 2 or r.random() >= p:
        return datas
    k = r.randrange(7)
    base = [payload(r, 400) for _ in range(4)]
    run = r.choice([1, 2, 4, 8, 16, 32, 64, 128])
    if k == 0:                                   # all alike
        f = lambda i, d: base[0][:len(d)]
    elif k == 1:                                 # runs of equal packets
        src = [payload(r, 400) for _ in range(n // run + 1)]
        f = lambda i, d: src[i // run][:len(d)]
    elif k == 2:                                 # period
        src = [payload(r, 400) for _ in range(min(run, n))]
        f = lambda i, d: src[i % len(src)][:len(d)]
    elif k == 3:                                 # constant bytes, in runs
        f = lambda i, d: bytes([(i // run) & 255]) * len(d)
    elif k == 4:                                 # all but one alike
        o = r.randrange(n)
        f = lambda i, d: d if i == o else base[0][:len(d)]
    elif k == 5:                                 # same first block
        f = lambda i, d: (base[0][:8] + d[8:])[:len(d)]
    else:                                        # few different, in runs, with differences in one bit
        def f(i, d):
            b = bytearray(base[(i // run) % 4][:len(d)])
            if b and i % 3 == 0:
                b[(i * 7) % len(b)] ^= 1 << (i % 8)
            return bytes(b)
    return [f(i, d) for i, d in enumerate(datas)]

def structured(r, bs, mode=0, lens=(8, 16, 24, 31), ops=("enc", "dec"), span=None):
    """Full batches of packets that agree in runs, or periodically, of every power of two,
    so that groups of lanes carry equal values while the groups differ."""
    us, run, runs = [], 1, []
    while run <= bs:
        runs.append(run); run *= 2
    for op in ops:
        for run in runs:
            u = Unit(); u.key(0, "b", cw(r))
            l = r.choice(lens)
            pick = lambda m: [bytes([r.randrange(256)]) * l if r.random() < .3 else r.randbytes(l) for _ in range(m)]
            src = pick(bs // run + 1); u.batch(op, 0, (l + 7) // 8 * 8, mode, u.packets(r, [src[i // run] for i in range(bs)]))
            src = pick(run); u.batch(op, 0, 184, mode, u.packets(r, [src[i % run] for i in range(bs)]))
            src = pick(2); u.batch(op, 0, 184, mode, u.packets(r, [src[i // run % 2] for i in range(bs)]))
            # equal within runs but for one lane
            src = pick(bs // run + 1); o = r.randrange(bs)
            u.batch(op, 0, 184, mode, u.packets(r, [r.randbytes(l) if i == o else src[i // run] for i in range(bs)]))
            # lengths in runs as well
            src = [payload(r, r.choice([0, 5, 8, 15, 16, 24])) for _ in range(bs // run + 1)]
            u.batch(op, 0, r.choice([8, 24, 184]), mode, u.packets(r, [src[i // run] for i in range(bs)]))
            us.append(u.L)
    return us

def plen(r, top=184):
    """A packet length; the interesting ones are frequent."""
    k = r.randrange(12)
    if k < 5 or top < 24:
        return top if k == 11 else r.randint(0, top)
    if k < 7:
        return 8 * r.randint(0, top // 8)
    if k == 7:
        return r.choice([0, 1, 7, 8, 9, 15, 16, 17, 23, 24])
    if k == 8:
        return r.choice([top, top - 1, top - 7, top - 8, top - 9])
    if k == 9:
        return 8 * r.randint(0, top // 8 - 1) + 7
    if k == 10:
        return 8 * r.randint(0, top // 8 - 1) + 1
    return top

BIG = [248, 255, 256, 257, 263, 264, 376, 504, 511, 512, 513, 752, 1000, 1016, 1023, 1024, 1025, 1031, 1472, 1504, 2000,
       2040, 2047, 2048, 2049, 4088, 4095, 4096, 4097, 4103, 5000, 8184, 8191, 8192, 8193, 10007, 16383, 16384, 16391,
       20000, 32760, 32767, 32768, 32769, 32775, 40000, 65528, 65535, 65536, 65537, 65543, 65544, 70001]

class Unit:
    def __init__(self, **opt):
        self.L = ["reset"]
        self.n = 0                      # packets so far, for #rel
        self.reg = {}
        for k, v in opt.items():
            self.L.append(f"{k} {v}")
    def __call__(self, line):
        self.L.append(line)
    def region(self, r, size):
        size = max(size, 1)
        if self.reg.get(r, 0) < size:
            size = (size + 4095) // 4096 * 4096
            self.reg[r] = size; self.L.append(f"region {r} {size}")
    def fresh_region(self, r, size):
        size = (max(size, 1) + 4095) // 4096 * 4096
        self.reg[r] = size; self.L.append(f"region {r} {size}")
    def alloc(self, h, k, fail=None):
        self.L.append(f"alloc {h} {k}" + (f" {fail}" if fail else ""))
    def set(self, h, c, off="e"):
        self.L.append(f"set {h} {hx(c)} {off}")
    def key(self, h, k, c, off="e"):
        self.alloc(h, k); self.set(h, c, off)
    def free(self, h):
        self.L.append(f"free {h}")
    def buf(self, i, r, off, data):
        self.L.append(f"buf {i} {r} {off} {hx(data)}")
    def one(self, op, h, i):
        """single packet operation on payload i; returns the packet's ordinal"""
        self.L.append(f"{op} {h} {i}"); self.n += 1
        return self.n - 1
    def batch(self, op, h, m, mode, ix):
        self.L.append(f"b{op} {h} {m} {mode} " + " ".join(map(str, ix))); self.n += len(ix)
        return list(range(self.n - len(ix), self.n))
    def rel(self, name, i, j):
        self.L.append(f"#rel {name} {i} {j}")
    def single(self, op, h, data, i=0, r=0, off=None, rnd=None):
        """payload in region r and one operation"""
        self.region(r, len(data) + 64)
        if off is None:
            off = "e" if rnd is None or rnd.random() < .5 else rnd.randrange(64)
        self.buf(i, r, off, data)
        return self.one(op, h, i)
    def packets(self, r, datas, first=0, spread=512):
        """payloads of a batch, spread over one region at odd alignments"""
        self.region(9, spread * (len(datas) + 1) + max([len(d) for d in datas] + [0]))
        for i, d in enumerate(datas):
            self.buf(first + i, 9, spread * i + r.randrange(64), d)
        return list(range(first, first + len(datas)))
