"""Scenario construction, harness runs and TLC trace validation."""
import json, os, re, subprocess, sys, time, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JENT_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

DISMEM, FORCEINT, DISINT, FIPS, NTG1, CACHEALL, SECMEM = 4, 8, 16, 32, 64, 128, 256
def hl(n): return n << 24
def ms(n): return n << 27

EPERM, ENOMEM, EAGAIN, EINVAL, EIO = 1, 12, 11, 22, 5


class Infra(Exception):
    """the machinery itself could not run"""


def limbs(v):
    v &= (1 << 64) - 1
    return [v & 0xffff, (v >> 16) & 0xffff, (v >> 32) & 0xffff, v >> 48]


def version():
    t = open(os.path.join(REPO, "jitterentropy.h")).read()
    def g(n):
        m = re.search(r"#define\s+" + n + r"\s+(\d+)", t)
        return m.group(1) if m else "?"
    return "%s.%s.%s" % (g("JENT_MAJVERSION"), g("JENT_MINVERSION"), g("JENT_PATCHLEVEL"))


class Scn:
    """A scenario: script lines for the harness and the matching events."""
    def __init__(self, note=""):
        self.note = note
        self.items = []      # (script line, kind, payload)
        self.fault_armed = False
        self.c = {"l1": -1, "l2": -1, "l3": -1}

    def _env(self, line, **kw):
        self.items.append((line, "env", kw)); return self

    def fips(self, v): return self._env("fips %d" % v, fips=(v == 1))
    def ncpu(self, v):
        again = any(i[0].startswith("ncpu") for i in self.items)
        return self._env("ncpu %d" % v, ncpu=v, replug=again)
    def quiet(self, line):
        self.items.append((line, "quiet", None)); return self
    def sysconf(self, l1, l2, l3):
        return self._env("sysconf %d %d %d -1" % (l1, l2, l3), l1=l1, l2=l2, l3=l3)
    def caches(self, ents):
        """ents: (cpu, index, type, level, size in text, bytes); level and bytes 0 and text "-" or not a number: unknown"""
        for c, i, t, l, z, n in ents: self.quiet("cache %d %d %s %s %s" % (c, i, t, l, z))
        return self._env("ston 1", caches=[{"type": t, "level": l if isinstance(l, int) else 0, "size": n} for c, i, t, l, z, n in ents])
    def rnd(self, gm, um):
        """how the system's random sources behave: getrandom and the device"""
        self.quiet("getrandom %d" % gm)
        return self._env("urandom %d" % um, rand=gm in (0, 2, 3) or um in (0, 2, 4))
    def mmapall(self, v): return self._env("fault mmapall %d" % v, mmapall=bool(v))
    def lockall(self, v, err=EPERM):
        return self._env("fault mlockall %d %d" % (v, err),
                         lock="ok" if not v else "perm" if err in (EPERM, ENOMEM, EAGAIN) else "other")
    def fault(self, kind, k, err=EPERM):
        """single-shot fault, armed for the next call only"""
        name = {"mmap": "hard", "mprotect": "hard", "malloc": "hard", "madvise": "advise"}.get(kind)
        if kind == "mlock":
            name = "lockperm" if err in (EPERM, ENOMEM, EAGAIN) else "lockother"
        kw = {"nodump": True} if kind == "madvise" else {}
        self._env("fault %s %d %d" % (kind, k, err), fault=name, **kw)
        self.fault_armed = True
        return self
    def tfault(self, kind, k):
        """the k-th start (tstart) or set-up (tinit) of a timer thread in the next call fails"""
        self._env("fault %s %d" % (kind, k), **{kind: "once", "tarm": True}); self.fault_armed = True
        return self
    def tall(self, kind, v): return self._env("fault %sall %d" % (kind, v), **{kind: "all" if v else "no"})
    def at(self, n, slot): return self._env("at %d %d" % (n, slot), at=n, atslot=slot)
    def cbst(self, v): return self._env("cbselftest %d" % v, cbst=bool(v))
    def clk(self, segs):
        """segs: ('s', n, inc) or ('q', n, a, b, m)"""
        line = ["clk"]; ev = []
        for s in segs:
            if s[1] == 0: continue
            if s[0] == "s":
                line.append("s %d %d" % (s[1], s[2] & ((1 << 64) - 1)))
                # the specification multiplies by less than 2^15
                n = s[1]
                while n > 0:
                    k = min(n, 20000)
                    ev.append({"t": "s", "n": k, "v": limbs(s[2]), "a": 0, "b": 0, "m": 1}); n -= k
            else:
                line.append("q %d %d %d %d" % s[1:])
                ev.append({"t": "q", "n": s[1], "v": [0, 0, 0, 0], "a": s[2], "b": s[3], "m": s[4]})
        self.items.append((" ".join(line), "ev", {"op": "clk", "segs": ev})); return self
    def clkset(self, v):
        self.items.append(("clkset %d" % v, "ev", {"op": "clkset", "v": limbs(v)})); return self
    def _call(self, line, n=1):
        self.items.append((line, "call", {"n": n, "armed": self.fault_armed}))
        if self.fault_armed:
            self.items.append(("fault clear", "quiet", None)); self.fault_armed = False
        return self
    def kat(self, w): return self._call("kat %d" % w)
    def setcb(self, v): return self._call("setcb %d" % v)
    def setcpu(self, v): return self._call("setcpu %d" % v)
    def switch(self, m): return self._call("switch %d" % m)
    def init(self): return self._call("init")
    def initex(self, osr, fl): return self._call("initex %d %d" % (osr, fl))
    def alloc(self, s, osr, fl): return self._call("alloc %d %d %d" % (s, osr, fl))
    def free(self, s): return self._call("free %d" % s)
    def read(self, s, n, nb=0): return self._call("read %d %d %d" % (s, n, nb))
    def safe(self, s, n, nb=0): return self._call("safe %d %d %d" % (s, n, nb))
    def selftest(self, s): return self._call("selftest %d" % s)
    def status(self, s, a, b, st=1): return self._call("status %d %d %d %d" % (s, a, b, st), len(range(a, b + 1, st)))
    def statusnull(self, s, z): return self._call("statusnull %d %d" % (s, z))
    def uuid(self, s, z, nb=0): return self._call("uuid %d %d %d" % (s, z, nb))

    def script(self, sid):
        return "S %d\n%s\nE\n" % (sid, "\n".join(i[0] for i in self.items))


NIL = "00000000-0000-0000-0000-000000000000"
def expected_uuid(rnd):
    """every identity that 16 consecutive fresh random bytes give"""
    return [uuid4(rnd[i:i + 16]) for i in range(len(rnd) - 15)] or [NIL]


def uuid4(b):
    b = list(b)
    b[6] = (b[6] & 0x0f) | 0x40
    b[8] = (b[8] & 0x3f) | 0x80
    h = "".join("%02x" % x for x in b)
    return "-".join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))


def convert(scn, recs):
    """events of one scenario from its script and the harness's records"""
    ev = []; it = iter(recs); dead = False
    for line, kind, p in scn.items:
        if kind == "env":
            ev.append({"op": "env", "set": p})
        elif kind == "ev":
            ev.append(p)
        elif kind == "call":
            for _ in range(p["n"]):
                r = next(it, None)
                if r and r.get("nokat"):
                    return None      # the known answers could not be located: nothing to learn
                if r is not None and "hang" in r:
                    h = hang_event(line)
                    ev.append(h or {"op": "crash", "what": r, "line": line}); dead = True; break
                if r is None or r["op"] in ("crash", "end"):
                    ev.append({"op": "crash", "what": r or {}, "line": line}); dead = True; break
                r = dict(r); r.pop("s", None)
                if "st" in r:
                    try:
                        r["st"] = json.loads(r["st"])
                        if not isinstance(r["st"], dict) or not doc_ok(r["st"]) or "configuration" not in r["st"]:
                            raise ValueError
                    except ValueError:
                        ev.append({"op": "badjson", "what": r["st"], "line": line}); dead = True; break
                if "full" in r:
                    try:
                        r["full"] = json.loads(r["full"])
                        if not isinstance(r["full"], dict) or not doc_ok(r["full"]):
                            raise ValueError
                    except ValueError:
                        ev.append({"op": "badjson", "what": r["full"], "line": line}); dead = True; break
                if p["armed"]:
                    r["armed"] = 1
                if r["op"] == "alloc":
                    r["xuuid"] = expected_uuid(r["rnd"])
                    r.setdefault("uuid", "")
                r.pop("rnd", None)
                ev.append(r)
            if dead: break
    return {"ev": ev}


def hang_event(line):
    """a call that never returned: accepted if the specification does not return either"""
    w = line.split(); a = [int(x) for x in w[1:]]
    def fl(f): return {"fb": f & 0xffffff, "hl": (f >> 24) & 7, "ms": f >> 27}
    if w[0] == "init": e = {}
    elif w[0] == "initex": e = {"osr": min(a[0], 100000), **fl(a[1])}
    elif w[0] == "alloc": e = {"slot": a[0], "osr": min(a[1], 100000), **fl(a[2]), "xuuid": [NIL], "uuid": ""}
    elif w[0] in ("read", "safe"): e = {"slot": a[0], "len": min(a[1], 2000000000), "nullbuf": a[2]}
    else: return None
    return {"op": w[0], "hang": 1, **e}


def doc_ok(d):
    """the status document has the fields (and types) the specification compares"""
    def shape(t, x):
        if isinstance(t, dict):
            return isinstance(x, dict) and all(k in x and shape(v, x[k]) for k, v in t.items())
        if t is int: return isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 1 << 31
        return isinstance(x, t)
    pair = {"intermittent": bool, "permanent": bool}
    loops = {"runtime": int, "initialization": int}
    if set(d) == {"version"}: return isinstance(d["version"], str)
    return shape({"version": str, "uuid": str, "reinitializations": int,
                  "output": {"invocations": int, "bytes": int, "bits": int},
                  "healthFailure": {k: pair for k in ("apt", "rct", "rctMemory", "lag")},
                  "configuration": {"osr": int, "memoryBlockSizeBytes": int, "hashLoopCount": loops,
                                    "memoryLoopCount": loops, "secureMemory": bool, "internalTimer": bool,
                                    "fipsMode": bool, "ntg1Mode": bool, "flags": dict},
                  "runtimeEnvironment": {"cpuCache": {"l1Bytes": int, "allBytes": int}, "cpuCores": int}}, d)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_harness(tag="h", flags=()):
    out = os.path.join(BUILD, tag)
    os.makedirs(out, exist_ok=True)
    r = sh(["bash", os.path.join(VERIF, "harness/build.sh"), out] + list(flags))
    if r.returncode:
        raise Infra("harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(out, "jh")


def build_java():
    jc = os.path.join(BUILD, "jc")
    src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java")))]
    if all(os.path.exists(os.path.join(jc, os.path.basename(s)[:-5] + ".class")) and
           os.path.getmtime(os.path.join(jc, os.path.basename(s)[:-5] + ".class")) >= os.path.getmtime(s) for s in src):
        return jc
    os.makedirs(jc, exist_ok=True)
    r = sh(["javac", "-cp", TLAJAR, "-d", jc] + src)
    if r.returncode:
        raise Infra("javac failed:\n" + r.stdout)
    return jc


def run_harness(jh, scns, work, tag):
    """runs scenarios (numbered from 1) in parallel processes; returns records per scenario"""
    os.makedirs(work, exist_ok=True)
    parts = [list(range(i, len(scns), NCPU)) for i in range(min(NCPU, len(scns)))]
    def one(pi):
        sf = os.path.join(work, "%s.%d.scn" % (tag, pi)); of = os.path.join(work, "%s.%d.out" % (tag, pi))
        with open(sf, "w") as f:
            for i in parts[pi]:
                f.write(scns[i].script(i + 1))
        r = sh([jh, sf, of])
        if r.returncode:
            raise Infra("harness exit %d: %s" % (r.returncode, r.stdout[-2000:]))
        d = {}
        for l in open(of):
            try:
                j = json.loads(l)
            except ValueError:
                j = {"op": "crash", "s": None, "raw": l[:200]}
            if j.get("s") is None: continue
            d.setdefault(j["s"], []).append(j)
        os.unlink(sf); os.unlink(of)
        return d
    recs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for d in ex.map(one, range(len(parts))):
            recs.update(d)
    return [recs.get(i + 1, []) for i in range(len(scns))]


def java_cmd(mem="2g", pure=False):
    if pure:      # the specification's own definitions, no Java replacements
        return ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", ":".join([TLAJAR, CMJAR])]
    return ["java", "-Xmx" + mem, "-Xss64m", *os.environ.get("JOPT", "-XX:+UseSerialGC -XX:TieredStopAtLevel=1").split(), "-cp",
            ":".join([build_java(), TLAJAR, CMJAR])]


def tlc(spec, cfg, work, tag, env=None, workers=1, mem="3g", extra=(), timeout=3000, pure=False, stop=None):
    """stop: seconds after which an unfinished exploration is ended (rc None)"""
    meta = os.path.join(work, tag + ".meta")
    cmd = java_cmd(mem, pure) + ["tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
                           "-config", os.path.join(VERIF, "spec", cfg), *extra, os.path.join(VERIF, "spec", spec)]
    e = dict(os.environ); e.update(env or {})
    try:
        if stop is None:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               cwd=os.path.join(VERIF, "spec"), timeout=timeout)
        else:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                                 cwd=os.path.join(VERIF, "spec"))
            try:
                out, _ = p.communicate(timeout=stop)
            except subprocess.TimeoutExpired:
                p.kill(); out, _ = p.communicate()
                return None, out
            return p.returncode, out
    finally:
        subprocess.run(["rm", "-rf", meta])
    return r.returncode, r.stdout


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def validate(traces, clauses, work, tag, cfg="JentTrace.cfg", spec="JentTrace.tla", parts=NCPU, extra=None):
    """returns (accepted set of indices, states, diagnostics per index)"""
    parts = max(1, min(parts, len(traces)))
    # longest first, dealt round robin
    def cost(t): return sum(e.get("nrd", 0) + 50 for e in t["ev"])
    order = sorted(range(len(traces)), key=lambda i: -cost(traces[i]))
    buckets = [[] for _ in range(parts)]; load = [0] * parts
    for i in order:
        b = load.index(min(load)); buckets[b].append(i); load[b] += cost(traces[i])
    ver = version()
    def one(bi, idx=None):
        idx = buckets[bi] if idx is None else idx
        f = os.path.join(work, "%s.%d.json" % (tag, bi))
        with open(f, "w") as fh:
            d = {"clauses": sorted(clauses), "version": ver, "scn": [traces[i] for i in idx]}
            d.update(extra or {})
            json.dump(d, fh)
        rc, out = tlc(spec, cfg, work, "%s.%d" % (tag, bi), {"TRACE": f}, mem="3g", workers=int(os.environ.get("W","1")))
        if rc != 0:
            # an observation the specification cannot even compare: find the scenario
            if rc in (75, 76, 77, 255) and "OutOfMemory" not in out and len(idx) > 1:
                acc = set(); st = [0, 0]; diag = {}
                for half in (idx[:len(idx) // 2], idx[len(idx) // 2:]):
                    a, s2, d = one(bi, half)
                    acc |= a; st = [st[0] + s2[0], st[1] + s2[1]]; diag.update(d)
                return acc, st, diag
            if rc in (75, 76, 77, 255) and "OutOfMemory" not in out:
                return set(), tlc_stats(out), {idx[0]: [" observation outside the specification: " + out[-1200:]]}
            raise Infra("TLC failed (rc %d) on %s: %s" % (rc, f, out[-3000:]))
        os.unlink(f)
        acc = {idx[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', out)}
        diag = {}
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),(.*?)>>\n(?=<<|Progress|Model|Finished|\d)', out, re.S):
            diag.setdefault(idx[int(m.group(1)) - 1], []).append(re.sub(r"\s+", " ", m.group(2))[:600])
        return acc, tlc_stats(out), diag
    acc = set(); st = [0, 0]; diag = {}
    with cf.ThreadPoolExecutor(parts) as ex:
        for a, s, d in ex.map(one, range(parts)):
            acc |= a; st[0] += s[0]; st[1] += s[1]; diag.update(d)
    return acc, st, diag
