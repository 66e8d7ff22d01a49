"""Shared machinery of the checks: building libdvbcsa from /repo's working tree,
running scenarios, judging outcomes, running TLC, writing evidence."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = min(8, os.cpu_count() or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

LITTLE, BIG = "DVBCSA_ENDIAN_LITTLE", "DVBCSA_ENDIAN_BIG"
COMMON = ["HAVE_ASSERT_H", "HAVE_ATTRIBUTE_MAY_ALIAS", "HAVE_INTTYPES_H", "HAVE_POSIX_MEMALIGN", "HAVE_STDINT_H",
          "HAVE_STDIO_H", "HAVE_STDLIB_H", "HAVE_STRINGS_H", "HAVE_STRING_H", "HAVE_SYS_STAT_H", "HAVE_SYS_TYPES_H",
          "HAVE_UNISTD_H", "STDC_HEADERS"]
MM, ALT = "HAVE_MM_MALLOC", "DVBCSA_USE_ALT_SBOX"
A64 = ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"]
P64 = ["qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"]
P32 = ["qemu-ppc", "-L", "/usr/powerpc-linux-gnu"]
AVX = [] if "avx2" in open("/proc/cpuinfo").read() else ["qemu-x86_64", "-cpu", "max"]

class Variant:
    def __init__(self, name, word, cc="gcc", flags=(), endian=LITTLE, defs=(), emu=(), size_long=8, alias=True, without=()):
        self.name, self.word, self.cc, self.flags, self.emu = name, word, cc, list(flags), list(emu)
        self.defs = [endian, "DVBCSA_USE_" + word] + [d for d in COMMON if alias or d != "HAVE_ATTRIBUTE_MAY_ALIAS"] + list(defs)
        self.defs = [d for d in self.defs if d not in without]
        self.size_long = size_long
        self.t32 = word == "UINT32"
        self.native = not emu

V = {v.name: v for v in [
    # the fourteen configurations of the repository's test run
    Variant("default", "UINT64", defs=[MM]),
    Variant("default-altsbox", "UINT64", defs=[MM, ALT]),
    Variant("uint32", "UINT32", defs=[MM]),
    Variant("mmx", "MMX", flags=["-mmmx"], defs=[MM]),
    Variant("sse2", "SSE", flags=["-msse", "-msse2"], defs=[MM]),
    Variant("sse2-altsbox", "SSE", flags=["-msse", "-msse2"], defs=[MM, ALT]),
    Variant("ssse3", "SSSE3", flags=["-mssse3"], defs=[MM]),
    Variant("avx2", "AVX2", flags=["-mavx2"], defs=[MM], emu=AVX),
    Variant("avx2-altsbox", "AVX2", flags=["-mavx2"], defs=[MM, ALT], emu=AVX),
    Variant("neon-aarch64", "NEON", cc="aarch64-linux-gnu-gcc", emu=A64),
    Variant("neon-aarch64-altsbox", "NEON", cc="aarch64-linux-gnu-gcc", emu=A64, defs=[ALT]),
    Variant("uint64-ppc64be", "UINT64", cc="powerpc64-linux-gnu-gcc", endian=BIG, emu=P64, defs=[MM]),
    Variant("uint64-ppc64be-altsbox", "UINT64", cc="powerpc64-linux-gnu-gcc", endian=BIG, emu=P64, defs=[MM, ALT]),
    Variant("uint32-ppc64be", "UINT32", cc="powerpc64-linux-gnu-gcc", endian=BIG, emu=P64, defs=[MM]),
    # further configurations configure can produce
    Variant("uint32-altsbox", "UINT32", defs=[MM, ALT]),
    Variant("mmx-altsbox", "MMX", flags=["-mmmx"], defs=[MM, ALT]),
    Variant("ssse3-altsbox", "SSSE3", flags=["-mssse3"], defs=[MM, ALT]),
    Variant("uint64-aarch64", "UINT64", cc="aarch64-linux-gnu-gcc", emu=A64),
    Variant("uint32-ppc32be", "UINT32", cc="powerpc-linux-gnu-gcc", endian=BIG, emu=P32, size_long=4),
    Variant("uint64-ppc32be", "UINT64", cc="powerpc-linux-gnu-gcc", endian=BIG, emu=P32, size_long=4),
    # no mm_malloc.h: the posix_memalign branch natively
    Variant("sse2-posix", "SSE", flags=["-msse", "-msse2"]),
    Variant("avx2-posix", "AVX2", flags=["-mavx2"], emu=AVX),
    # with real MMX instructions: GCC emulates them in SSE2 registers on x86-64
    Variant("mmx-clang", "MMX", cc="clang", flags=["-mmmx"], defs=[MM]),
    # the transposition code for processors short of registers (there is no 32-bit C library here)
    Variant("uint64-i386", "UINT64", flags=["-D__i386__"], defs=[MM]),
    Variant("sse2-i386", "SSE", flags=["-msse", "-msse2", "-D__i386__"], defs=[MM]),
    # neither mm_malloc.h nor posix_memalign
    Variant("uint64-malloc", "UINT64", without=["HAVE_POSIX_MEMALIGN"]),
    Variant("uint32-malloc", "UINT32", without=["HAVE_POSIX_MEMALIGN"]),
    # configure --enable-debug
    Variant("uint64-debug", "UINT64", flags=["-DDVBCSA_DEBUG", "-O0"], defs=[MM]),
    Variant("sse2-debug", "SSE", flags=["-DDVBCSA_DEBUG", "-O0", "-msse", "-msse2"], defs=[MM]),
    # other compilers, and the optimisations the repository's own build leaves out
    Variant("uint64-clang", "UINT64", cc="clang", defs=[MM]),
    Variant("ssse3-clang", "SSSE3", cc="clang", flags=["-mssse3"], defs=[MM]),
    Variant("uint32-vector", "UINT32", flags=["-ftree-vectorize", "-fstrict-aliasing"], defs=[MM, ALT]),
    Variant("avx2-vector", "AVX2", flags=["-mavx2", "-mtune=haswell", "-ftree-vectorize"], defs=[MM], emu=AVX),
    Variant("sse2-small", "SSE", flags=["-msse", "-msse2", "-Os", "-fno-unroll-loops"], defs=[MM]),
    # a compiler without the may_alias attribute
    Variant("uint64-noalias", "UINT64", flags=["-fno-strict-aliasing"], defs=[MM, ALT], alias=False),
]}
BASE14 = list(V)[:14]
FOREIGN = [n for n in V if V[n].cc not in ("gcc", "clang")]
NATIVE9 = [n for n in BASE14 if V[n].native or V[n].word == "AVX2"]
BATCH = {"UINT64": 64, "UINT32": 32, "MMX": 64, "SSE": 128, "SSSE3": 128, "AVX2": 256, "NEON": 128}

class Broken(Exception):
    """The check itself cannot work (not a verdict on the code)."""

# --------------------------------------------------------------------------- scratch
_scratch = None
_scratchlock = threading.Lock()
def scratch():
    global _scratch
    with _scratchlock:
        if _scratch is None:
            base = os.environ.get("VERIF_SCRATCH") or "/tmp"
            _scratch = tempfile.mkdtemp(prefix="dvbcsa-verif.", dir=base)
        return _scratch

def cleanup():
    global _scratch
    if _scratch and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None

def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

def pmap(f, xs, n=JOBS):
    xs = list(xs)
    if not xs:
        return []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

def rng(*salt):
    return random.Random(f"{SEED}:" + ":".join(map(str, salt)))

# --------------------------------------------------------------------------- build
def lib_sources(v):
    """The sources src/Makefile.am lists for this configuration."""
    text = open(os.path.join(REPO, "src", "Makefile.am")).read().replace("\\\n", " ")
    out, cond = [], []
    for line in text.splitlines():
        line = line.strip()
        m = re.match(r"if\s+(!?)(\w+)", line)
        if m:
            val = v.t32 if m[2] == "TRANSPOSE_32" else False
            cond.append(val != bool(m[1])); continue
        if re.match(r"else\b", line) and cond:
            cond[-1] = not cond[-1]; continue
        if re.match(r"endif\b", line) and cond:
            cond.pop(); continue
        m = re.match(r"libdvbcsa_la_SOURCES\s*\+?=\s*(.*)", line)
        if m and all(cond):
            out += [w for w in m[1].split() if w.endswith(".c")]
    if not out:
        raise Broken("no sources found in src/Makefile.am")
    return out

REPO_CFLAGS = ["-g", "-O2", "-Wall", "-D_XOPEN_SOURCE=600", "-O3", "-funroll-loops", "-fomit-frame-pointer", "-fno-tree-vectorize"]
_objlock = threading.Lock()
_objs = {}

def write_config_h(v, d, extra=()):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "config.h"), "w") as f:
        for x in v.defs + list(extra):
            f.write(f"#define {x} 1\n")
        f.write(f"#define SIZEOF_LONG {v.size_long}\n#define PACKAGE \"libdvbcsa\"\n#define VERSION \"1.1.0\"\n")

def build_objs(name, cflags=None, tag="", cc=None):
    """Compile the library for a variant; returns the object files."""
    v = V[name]
    key = (name, tag)
    with _objlock:
        ent = _objs.setdefault(key, {"lock": threading.Lock(), "objs": None})
    with ent["lock"]:
        if ent["objs"] is None:
            d = os.path.join(scratch(), "build", name + tag)
            write_config_h(v, d)
            objs = []
            jobs = []
            for s in lib_sources(v):
                o = os.path.join(d, s[:-2] + ".o")
                objs.append(o)
                jobs.append([cc or v.cc, "-DHAVE_CONFIG_H", "-I", d, "-I", os.path.join(REPO, "src"), "-w"]
                            + (REPO_CFLAGS if cflags is None else cflags) + v.flags
                            + ["-c", os.path.join(REPO, "src", s), "-o", o])
            for r, j in zip(pmap(lambda j: run(j), jobs, 4), jobs):
                if r.returncode:
                    raise Broken(f"cannot compile {j[-3]} for {name}:\n{r.stderr[-1500:]}")
            ent["objs"] = objs
    return ent["objs"]

WRAPS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "mmap", "mmap64", "munmap", "sbrk", "getenv", "secure_getenv",
         "syslog", "vsyslog", "__syslog_chk", "__vsyslog_chk", "fopen", "fopen64", "open", "open64"]
_execs = {}
def build_exec(name):
    with _objlock:
        ent = _execs.setdefault(name, {"lock": threading.Lock(), "path": None})
    with ent["lock"]:
        if ent["path"] is None:
            v = V[name]
            objs = build_objs(name)
            p = os.path.join(scratch(), "build", "exec_" + name)
            r = run([v.cc, "-O2", "-w", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "exec.c")]
                    + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-lm", "-o", p])
            if r.returncode:
                raise Broken(f"cannot build the executor for {name}:\n{r.stderr[-1500:]}")
            ent["path"] = p
    return ent["path"]

_judge = None
_judgelock = threading.Lock()
def build_judge():
    """The judge contains the cipher translated from spec/CSA.tla."""
    global _judge
    with _judgelock:
        if _judge is None:
            d = os.path.join(scratch(), "build", "judge"); os.makedirs(d, exist_ok=True)
            r = run([sys.executable, os.path.join(VERIF, "tools", "tla2cpp.py"), os.path.join(SPEC, "CsaRel.tla"), os.path.join(d, "CsaRel.hpp")])
            if r.returncode:
                raise Broken("translation of the specification failed: " + r.stdout + r.stderr)
            p = os.path.join(d, "judge")
            r = run(["g++", "-std=c++20", "-O3", "-w", "-I", d, os.path.join(VERIF, "harness", "judge.cpp"), "-o", p])
            if r.returncode:
                raise Broken("judge does not compile: " + r.stderr[-3000:])
            _judge = p
    return _judge

_huge = {}
def build_huge(name):
    with _objlock:
        ent = _huge.setdefault(name, {"lock": threading.Lock(), "path": None})
    with ent["lock"]:
        if ent["path"] is None:
            build_judge()
            d = os.path.join(scratch(), "build", "judge"); p = os.path.join(scratch(), "build", "huge_" + name)
            r = run(["g++", "-std=c++20", "-O3", "-w", "-I", d, "-I", os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "huge.cpp")]
                    + build_objs(name) + ["-o", p])
            if r.returncode:
                raise Broken("huge does not compile: " + r.stderr[-2000:])
            ent["path"] = p
    return ent["path"]

_bulk = {}
def build_bulk(name):
    """harness/bulk.c for a variant; native ones are linked with the specification."""
    with _objlock:
        ent = _bulk.setdefault(name, {"lock": threading.Lock(), "path": None})
    with ent["lock"]:
        if ent["path"] is None:
            v = V[name]; native = name not in FOREIGN
            build_judge()
            objs = build_objs(name)
            b = os.path.join(scratch(), "build"); p = os.path.join(b, "bulk_" + name)
            if native:
                with _judgelock:
                    g = os.path.join(b, "glue.o")
                    if not os.path.exists(g):
                        r = run(["g++", "-std=c++20", "-O3", "-w", "-I", os.path.join(b, "judge"), "-c", os.path.join(VERIF, "harness", "glue.cpp"), "-o", g])
                        if r.returncode:
                            raise Broken("glue does not compile: " + r.stderr[-2000:])
            src = os.path.join(VERIF, "harness", "bulk.c"); inc = ["-O2", "-w", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "src")]
            if native:
                r = run(["gcc", *inc, "-c", src, "-o", p + ".o"])
                if not r.returncode:
                    r = run(["g++", p + ".o", g] + objs + ["-lm", "-o", p])
            else:
                r = run([v.cc, *inc, "-DNO_SPEC", src] + objs + ["-lm", "-o", p])
            if r.returncode:
                raise Broken(f"bulk does not compile for {name}: " + r.stderr[-2000:])
            ent["path"] = p
    return ent["path"]

_fuzz = {}
def build_fuzz(name):
    """harness/bulk.c as a libFuzzer target: the library's comparisons and branches are
    instrumented, the specification is not.  None if clang does not compile the library."""
    with _objlock:
        ent = _fuzz.setdefault(name, {"lock": threading.Lock(), "path": None, "done": False})
    with ent["lock"]:
        if not ent["done"]:
            ent["done"] = True
            build_bulk("default")                      # the translated specification
            b = os.path.join(scratch(), "build"); p = os.path.join(b, "fuzz_" + name)
            try:
                objs = build_objs(name, ["-O2", "-w", "-D_XOPEN_SOURCE=600", "-fsanitize=fuzzer-no-link"], "-fuzz", cc="clang")
            except Broken:
                return None
            r = run(["clang", "-O2", "-w", "-DFUZZ", "-fno-builtin", "-D_GNU_SOURCE", "-I", os.path.join(REPO, "src"), "-c", os.path.join(VERIF, "harness", "bulk.c"), "-o", p + ".o"])
            if not r.returncode:
                r = run(["clang++", "-fsanitize=fuzzer", p + ".o", os.path.join(b, "glue.o")] + objs + ["-lm", "-o", p])
            if r.returncode:
                raise Broken(f"fuzz target does not compile for {name}: " + r.stderr[-2000:])
            ent["path"] = p
    return ent["path"]

def build_all(names):
    fs = [build_judge] + [lambda n=n: build_exec(n) for n in names]
    pmap(lambda f: f(), fs)

# --------------------------------------------------------------------------- scenarios
_n = [0]
def newfile(suffix):
    with _objlock:
        _n[0] += 1
        d = os.path.join(scratch(), "run"); os.makedirs(d, exist_ok=True)
        return os.path.join(d, f"{_n[0]:06d}{suffix}")

def run_exec(name, scenario_lines, timeout=300):
    """Runs a scenario on the real library; returns (scenario file, outcome file)."""
    s = newfile(".scn"); o = s[:-4] + f".{name}.out"
    with open(s, "w") as f:
        f.write("\n".join(scenario_lines) + "\n")
    return s, run_exec_file(name, s, o, timeout)

def run_exec_file(name, s, o, timeout=300):
    p = build_exec(name)
    try:
        r = subprocess.run(V[name].emu + [p, s, o], stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    text_end = b""
    if os.path.exists(o):
        with open(o, "rb") as f:
            f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 300)); text_end = f.read()
    if rc == 0 and text_end.rstrip().endswith(b"END"):
        return o
    if b"\nE " in b"\n" + text_end:
        raise Broken(f"executor error on {name}: {text_end[-200:]}")
    if rc == 3 and b"\nF " in b"\n" + text_end:
        return o                                  # the library crashed: for the judge
    if rc in (70, 64, 66):
        raise Broken(f"executor failed on {name} with {rc}: {text_end[-200:]}")
    with open(o, "ab") as f:                      # killed or hung inside the library
        f.write(f"\nF ended with {rc}\n".encode())
    return o

class Verdicts:
    """Collects violations of one check."""
    def __init__(self):
        self.v = []
        self.lock = threading.Lock()
    def add(self, what, files=(), detail=""):
        with self.lock:
            self.v.append((what, list(files), detail))

def judge(scn, outc, mode="spec", table=None, flags="", timeout=600):
    """Returns (list of complaints, counts dict)."""
    cmd = [build_judge(), mode, scn, outc, flags or "-"] + ([table] if table else [])
    r = run(cmd, timeout=timeout)
    if r.returncode not in (0, 1):
        raise Broken(f"judge failed ({r.returncode}): {r.stdout[-500:]}{r.stderr[-500:]}")
    bad, counts = [], {}
    for l in r.stdout.splitlines():
        if l.startswith("BAD "):
            bad.append(l[4:])
        elif l.startswith("COUNT "):
            k, n = l[6:].rsplit(" ", 1); counts[k] = int(n)
    if r.returncode == 1 and not bad:
        raise Broken("judge: inconsistent result")
    return bad, counts

# --------------------------------------------------------------------------- TLC
class TLCResult:
    pass

def tlc(module, cfg=None, extra_files=(), workers=1, timeout=600, args=(), heap="2g", spec_dir=SPEC, env=None):
    """Run TLC on spec/MODULE.tla in a scratch copy of the spec directory."""
    with _objlock:
        _n[0] += 1
        d = os.path.join(scratch(), "tlc", f"{_n[0]:04d}-{module}")
    os.makedirs(d)
    for f in os.listdir(spec_dir):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(spec_dir, f), d)
    for src, dst in extra_files:
        if os.path.exists(str(src)) and "\n" not in str(src):
            shutil.copy(src, os.path.join(d, dst))
        else:
            with open(os.path.join(d, dst), "w") as f:
                f.write(src)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"), "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    t = time.time()
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
    out = TLCResult()
    out.rc, out.out, out.dir, out.wall = r.returncode, r.stdout + r.stderr, d, time.time() - t
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout):
        pass
    out.generated = int(m[1].replace(",", "")) if m else 0
    out.distinct = int(m[2].replace(",", "")) if m else 0
    out.ok = r.returncode == 0 and "No error has been found" in r.stdout
    out.violated = r.returncode in (10, 11, 12, 13)
    return out

def tlc_must(module, **kw):
    r = tlc(module, **kw)
    if not r.ok:
        raise Broken(f"TLC rejects {module} ({kw.get('cfg')}): rc={r.rc}\n" + r.out[-3000:])
    return r

def tlapm(module, timeout=600):
    """Check the proofs of spec/MODULE.tla; the number of obligations proved, or None when some were not."""
    with _objlock:
        _n[0] += 1
        d = os.path.join(scratch(), "tlaps", f"{_n[0]:04d}-{module}")
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    try:
        r = subprocess.run(["tlapm", "--threads", str(JOBS), "--stretch", "3", module + ".tla"], cwd=d, capture_output=True, text=True, timeout=timeout,
                           env=dict(os.environ, TMPDIR=d))
    except (OSError, subprocess.TimeoutExpired):
        return None
    m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
    return int(m[1]) if m and r.returncode == 0 else None

def tlaseq(bs):
    return "<<" + ",".join(str(b) for b in bs) + ">>"

# --------------------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.assumptions = [], {}, []
        self.verd = Verdicts()
        self.lock = threading.Lock()
    def count(self, **kw):
        with self.lock:
            for k, n in kw.items():
                self.cov[k] = self.cov.get(k, 0) + n
    def add_states(self, r):
        with self.lock:
            self.states += r.distinct; self.transitions += r.generated
    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)
    def bad(self, what, files=(), detail=""):
        self.verd.add(what, files, detail)
    def stopped(self):
        """A violation that is no known finding is confirmed: what has not begun need not."""
        return any(not any(m in what for m in self.known()) for what, _, _ in list(self.verd.v))
    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) match=(.*)", l)
                if m and m[1] == self.pid:
                    out.append(m[2].strip())
        return out
    def finish(self):
        wall = time.time() - self.t0
        new = []
        shown = set()
        for what, files, detail in self.verd.v:
            k = [m for m in self.known() if m in what]
            if k:
                if k[0] not in shown:
                    print(f"KNOWN-FINDING: property={self.pid} {k[0]}"); shown.add(k[0])
            else:
                new.append((what, files, detail))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples)
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(new))
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if new:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.pid}-{int(time.time())}-{os.getpid()}.txt")
            with open(path, "w") as f:
                for what, files, detail in new[:20]:
                    f.write(f"# {what}\n{detail}\n")
                    for fn in files[:4]:
                        if os.path.exists(fn) and os.path.getsize(fn) < 4_000_000:
                            f.write(f"# ---- {os.path.basename(fn)}\n" + open(fn, errors="replace").read() + "\n")
            for what, _, _ in new[:10]:
                print("  " + what[:400])
            print(f"VIOLATION property={self.pid} replay={path}")
        else:
            print(f"{self.pid}: held on everything explored ({wall:.1f} s; states {self.states}, traces {self.traces}, "
                  + ", ".join(f"{k} {v}" for k, v in self.cov.items() if isinstance(v, int)) + ")")
        sys.stdout.flush()
        return 1 if new else 0
