"""The kernel module's front end: scenarios, recorded runs, validation against Kmod.tla."""
import json, os, random, re, collections
from .core import *


def build_kmod(tag):
    out = os.path.join(BUILD, tag); os.makedirs(out, exist_ok=True)
    r = sh(["bash", os.path.join(VERIF, "harness/kmod/build.sh"), out])
    if r.returncode: raise Infra("kernel module harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(out, "kh")


PARAMS = {"osr": 0, "flags": 0, "ntg1": 0, "force_fips": 0, "cache_all": 0, "selftest_interval": 0, "hwrng_quality": 0,
          "testing_osr": 0, "testing_flags": 0, "verbose": 0}


class KScn:
    def __init__(self, note, seed=1, **par):
        self.note = note; self.lines = ["rseed %d" % seed]; self.par = dict(PARAMS, **par); self.body = []
    def L(self, s): self.body.append(s); return self
    def env(self, n, v): return self.L("env %s %d" % (n, v))
    def fail(self, n, k=1, v=1): return self.L("fail %s %d %d" % (n, k, v))
    def clear(self): return self.L("clear")
    def T(self, t, *ops):
        for o in ops: self.L("T %d %s" % (t, o))
        return self
    def go(self, sched=()): return self.L("go " + " ".join("%d:%d" % x for x in sched))
    def run(self, *ops): return self.T(1, *ops).go()
    def load(self): return self.run("load")
    def end(self):
        """everything is closed and the module unloaded"""
        return self.clear().run(*["close %d" % i for i in range(6)], *["texit %d" % i for i in range(4)], "unload")
    def script(self, sid):
        return "S %d\n%s\nE\n" % (sid, "\n".join(self.lines + ["param %s %d" % kv for kv in sorted(self.par.items())] + self.body))
    def dump(self): return json.dumps({"note": self.note, "lines": self.lines, "par": self.par, "body": self.body})
    @staticmethod
    def load_json(j):
        d = json.loads(j); s = KScn(d["note"]); s.lines, s.par, s.body = d["lines"], d["par"], d["body"]; return s


def split(x): return [x & 0xffffff, x >> 24]


def cfg_of(s):
    p = s.par; fl = split(p["flags"]); tf = split(p["testing_flags"])
    return {"osr": p["osr"], "fb": fl[0], "up": fl[1], "ntg1": bool(p["ntg1"]), "force_fips": bool(p["force_fips"]),
            "cache_all": bool(p["cache_all"]), "interval": p["selftest_interval"], "quality": p["hwrng_quality"],
            "tosr": p["testing_osr"], "tfb": tf[0], "tup": tf[1], "version": version()}


def flags_text(t):
    m = {}
    for l in t.splitlines():
        k, _, v = l.partition(":"); m[k.strip()] = v.strip()
    def on(n): return {"on": True, "off": False}.get(m.get(n), "?")
    mem = m.get("max memory size", "?")
    g = re.fullmatch(r"(\d+) (kB|MB)", mem)
    mem = 0 if mem.startswith("auto") else int(g.group(1)) * (1024 if g.group(2) == "MB" else 1) if g else -1 if mem.startswith("invalid") else -2
    h = m.get("hash loop count", "?")
    return {"raw": split(int(m.get("flags", "0"), 16)), "dismem": on("JENT_DISABLE_MEMORY_ACCESS"), "forceint": on("JENT_FORCE_INTERNAL_TIMER"),
            "disint": on("JENT_DISABLE_INTERNAL_TIMER"), "fips": on("JENT_FORCE_FIPS"), "ntg1": on("JENT_NTG1"), "cache": on("JENT_CACHE_ALL"),
            "mem": mem, "hash": 0 if h == "default" else int(h) if h.isdigit() else -1}


def proc_value(name, txt):
    try:
        if name == "flags_raw": return split(int(txt.strip(), 16)) if txt == "0x%08x\n" % int(txt, 16) else txt
        if name in ("osr", "ntg1", "fips", "kcapi", "hwrng", "chardev", "testing"): return int(txt) if txt == "%d\n" % int(txt) else -1
        if name == "version": return txt.strip()
        if name == "flags": return flags_text(txt)
    except ValueError:
        pass
    return -1


def convert(scn, recs):
    ev = []; cur = {}
    for r in recs:
        r = dict(r); r.pop("s", None); e = r.get("e"); t = r["t"]
        if e == "end": continue
        if e == "noparam": raise Infra("no parameter %s" % r["n"])
        if e == "call":
            op = r["op"]
            r["key"] = ("h" if op == "hread" else "t%d" % r["f"] if op in ("tinit", "texit", "tgen", "tseed") else
                        "f%d" % r["f"] if "f" in r else "-")
            cur[t] = r
        elif e == "par": r["v"] = split(r["v"]) if "flags" in r["n"] else min(r["v"], 2000000000)
        elif e in ("lalloc", "linit"): r["flags"] = split(int(r["flags"], 16))
        elif e == "stxt": r["n"] = len(r["txt"])
        elif e == "utxt":
            r["n"] = len(r["txt"]); r["hex"] = (r["txt"].encode() + b"\0").hex() if r["txt"] else ""
        elif e == "lsb": r["pid"] = cur.get(t, {}).get("id", 0)
        elif e == "meas" and r["first"] > 2000000000: r["first"] = 0
        elif e == "ret":
            c = cur.get(t, {}); op = c.get("op")
            if op == "load": r["flags"] = split(int(r["flags"], 16))
            if op == "readraw":
                r["smp"] = [[a, b, f + i] for a, b, f, n in r["smp"] for i in range(n)]
            if op in ("ioctl", "ioctlraw"): r["big"] = int(c["len"], 16) > 0xffffffff
            if op == "proc":
                n = c["name"]; p = c["path"]
                if p.startswith("I:") or n == "hwrng_status": r["kind"] = "status"
                elif n == "statistics":
                    r["kind"] = "stats"
                    try:
                        d = json.loads(r["txt"])
                        r["v"] = {"open": d["charDevice"]["openInstances"], "cum": d["charDevice"]["cumulativeOpens"],
                                  "runs": d["selfTest"]["runs"], "failures": d["selfTest"]["failures"], "interval": d["selfTest"]["intervalSeconds"]}
                    except (ValueError, KeyError, TypeError):
                        r["kind"] = "version"; r["v"] = "statistics: " + r["txt"][:200]
                elif n in ("flags_raw", "osr", "ntg1", "fips", "kcapi", "hwrng", "chardev", "testing", "version", "flags"):
                    r["kind"] = n; r["v"] = proc_value(n, r["txt"])
                else: r["kind"] = "other"
        ev.append(r)
    return {"ev": ev, "cfg": cfg_of(scn)}


# ------------------------------------------------------------------ scenarios
CODES = [-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -99]
STAT = ["jitterentropy/statistics", "jitterentropy/hwrng_status", "I:0", "I:1", "jitterentropy/config/flags", "jitterentropy/version"]
FIELD = ["UUID", "VERSION", "OSR", "FLAGS", "HEALTH", "OUTPUT", "REINIT"]


def sched(rng, tasks, n=None, span=60):
    n = rng.randint(0, 7) if n is None else n
    return sorted({rng.randint(1, span): rng.choice(tasks) for _ in range(n)}.items())


def params(rng, selftest=None):
    return {"osr": rng.choice([0, 0, 3, 7]), "flags": rng.choice([0, 0, 16, 32, 4]), "ntg1": rng.randrange(2), "force_fips": rng.randrange(2),
            "selftest_interval": rng.choice([0, 10, 3600]) if selftest is None else selftest, "verbose": rng.choice([0, 0, 1])}


def rsize(rng): return rng.choice([0, 1, 7, 31, 32, 33, 40, 63, 64, 65, 96, 100, 130])


def pairs(rng, note, ops, span=14, setup=("open 0", "open 1", "tinit 0", "openraw 3"), faults=(None,), share=1.0, after=(), n2=0, **par):
    """operation A interrupted at each of its steps in turn by the whole of operation B (until it has to wait)"""
    out = []
    for a, b in ops:
        for f in faults:
            for i in range(1, span + 1):
                if rng.random() >= share: continue
                s = KScn("%s: %s against %s" % (note, a.split()[0], b.split()[0]), i, **par).load().run(*setup)
                if f: s.fail(*f)
                sc = [(i, 2)]
                if n2: sc.append((i + rng.randint(1, n2), 1))
                s.T(1, a).T(2, b).go(sc)
                if after: s.run(*after)
                out.append(s.end())
    return out


def cross(xs, ys): return [(a, b) for a in xs for b in ys]


def readfault(rng, s, n=None):
    for _ in range(rng.randint(1, 2) if n is None else n):
        f = rng.choice(["lread", "lread", "lrealloc", "copy", "sig", "intr", "try", "setnb", "kmalloc", "resched"])
        if f == "lread": s.fail(f, rng.randint(1, 5), rng.choice(CODES))
        elif f == "copy": s.fail(f, rng.randint(1, 5), rng.choice([1, 8, 31, 32, 1000]))
        elif f == "resched": s.L("resched 1")
        else: s.fail(f, rng.randint(1, 5))
    return s


def g_read(rng, deep):
    out = []
    for n in (0, 1, 31, 32, 33, 64, 65, 97):
        for nb in (0, 1):
            out.append(KScn("read plain", n + 1).load().run("open 0", "read 0 %d %d" % (n, nb), "read 0 %d %d" % (n, 1 - nb)).end())
    # each kind of trouble at each chunk of one read
    for k in (1, 2, 3):
        for f, v in [("sig", 1), ("intr", 1), ("copy", 1), ("copy", 32), ("lread", -2), ("lread", -6), ("lread", -1), ("lrealloc", 1), ("setnb", 1)]:
            for nb in (0, 1):
                s = KScn("read trouble %s" % f, k).load().run("open 0").fail(f, k, v).run("read 0 90 %d" % nb, "read 0 40 0").end()
                out.append(s)
    for n in (1000, 1024, 1025, 3000, 4096, 4097):
        out.append(KScn("read long", n).load().run("open 0", "read 0 %d 0" % n).end())
    out += pairs(rng, "interrupted", cross(["read 0 70 0", "read 0 40 1"], ["read 0 70 0", "read 0 40 1", "ioctl 0 STATUS 100", "work 1", "work 0", "ioctl 0 SELFTEST", "proc I:0", "read 1 40 0"]), 16,
                 setup=("open 0", "open 1"), selftest_interval=10)
    for k in range(1, 4):
        out.append(KScn("read memory").load().run("open 0").fail("kmalloc", k).run("read 0 50 0", "read 0 50 1").end())
    # readers of one device file, of several ones, with everything that competes for them
    for i in range(2500 if deep else 260):
        s = KScn("readers", rng.randint(1, 9999), **params(rng)).load().run("open 0", "open 1")
        if rng.random() < .6: readfault(rng, s)
        tasks = [1, 2, 3][:rng.randint(2, 3)]
        for t in tasks:
            for _ in range(rng.randint(1, 3)):
                f = rng.choice([0, 0, 0, 1])
                s.T(t, rng.choice(["read %d %d 0" % (f, rsize(rng)), "read %d %d 0" % (f, rsize(rng)), "read %d %d 1" % (f, rsize(rng)),
                                   "ioctl %d STATUS 100" % f, "work 0", "proc I:%d" % f, "ioctl %d SELFTEST" % f]))
        out.append(s.go(sched(rng, tasks)).end())
    return out


def anyop(rng, cl=True):
    f = rng.randrange(3); t = rng.randrange(2)
    ops = ["open %d" % f, "openraw 3", "read %d %d %d" % (f, rsize(rng), rng.randrange(2)), "read 3 %d 0" % rng.choice([8, 16, 80]),
           "ioctl %d %s 200" % (rng.choice([f, 3]), rng.choice(FIELD + ["STATUS", "SELFTEST"])), "hread %d %d" % (rng.choice([1, 32, 64]), rng.randrange(2)),
           "tinit %d" % t, "tgen %d %d" % (t, rng.choice([1, 20, 40])), "work %d" % rng.randrange(3), "proc %s" % rng.choice(STAT)]
    if cl: ops += ["close %d" % f, "close %d" % f, "close 3", "texit %d" % t, "texit %d" % t]
    return rng.choice(ops)


OPS = ["read 0 40 0", "read 0 40 1", "ioctl 0 STATUS 200", "ioctl 0 OUTPUT", "ioctl 0 UUID", "ioctl 0 SELFTEST", "proc I:0", "close 0", "hread 32 1", "hread 32 0", "proc jitterentropy/hwrng_status",
       "tgen 0 40", "texit 0", "work 0", "work 1", "work 3", "read 3 16 0", "ioctl 3 STATUS 200", "ioctl 3 OSR", "ioctl 3 SELFTEST", "close 3", "open 2", "openraw 4", "tinit 1", "unload", "proc jitterentropy/statistics"]
TROUBLE = [("intr", 1), ("intr", 2), ("try", 1), ("kmalloc", 1), ("kmalloc", 2), ("copy", 1, 1), ("copy", 2, 1), ("copyin", 1), ("lstatus", 1, -1), ("luuid", 1, -1), ("lalloc", 1), ("pfile", 1), ("lread", 1, -2), ("lread", 1, -6),
           ("lrealloc", 1), ("lself", 1, 1)]
REALLOC = ("lrealloc", 1)


def g_excl(rng, deep):
    out = []
    # every operation with every kind of trouble, on its own
    for o in OPS:
        for f in TROUBLE:
            for v in (0, 1):
                s = KScn("trouble %s" % f[0], 1, selftest_interval=10, verbose=v).load()
                if o != "unload": s.run("open 0", "open 1", "tinit 0", "openraw 3")
                s.fail(*f).run(o, "proc jitterentropy/statistics", o, "proc jitterentropy/statistics", "close 0", "close 2", "proc jitterentropy/statistics")
                out.append(s.end())
    # every operation interrupted by every other one
    many = [x for x in OPS if x != "unload"]
    out += pairs(rng, "pair", cross(many, many), 12, share=1.0 if deep else .3, selftest_interval=10)
    out += pairs(rng, "pair", cross([x for x in many if x[0] in "rhtwp"], ["read 0 40 0", "hread 32 1", "tgen 0 40"]), 12, faults=(REALLOC,), share=1.0 if deep else .4, selftest_interval=10, verbose=1)
    out += pairs(rng, "pair failing test", cross(["work 1", "work 0", "ioctl 0 SELFTEST", "close 0", "read 0 40 0"], ["work 1", "ioctl 0 SELFTEST", "close 0", "read 0 40 0"]), 12, faults=(("lself", 1, 1),), selftest_interval=10, share=1.0 if deep else .5,
                 after=("close 0", "proc jitterentropy/statistics"))
    out += pairs(rng, "unload", cross(["unload"], ["hread 32 1", "hread 32 0", "work 0", "proc jitterentropy/hwrng_status", "proc jitterentropy/statistics", "proc jitterentropy/config/flags"])
                 + cross(["hread 32 1", "work 0", "proc jitterentropy/hwrng_status", "proc jitterentropy/config/flags"], ["unload"]), 12, setup=("open 0", "close 0"), selftest_interval=10)
    if deep: out += pairs(rng, "pair and back", cross(many, many), 12, share=.4, n2=6, selftest_interval=10)
    # the end of an instance while its self test is scheduled, running, or its status is being read
    for i in range(600 if deep else 60):
        s = KScn("end against work", rng.randint(1, 9999), **params(rng, 10)).load().run("open 0", "tinit 0", "open 1")
        if rng.random() < .3: s.fail("lself", rng.randint(1, 2), 1)
        s.T(1, rng.choice(["close 0", "texit 0", "close 1"]))
        s.T(2, "work %d" % rng.randrange(4), "work 0")
        s.T(3, rng.choice(["proc I:0", "proc I:1", "work 1", "ioctl 1 SELFTEST", "hread 8 1"]))
        out.append(s.go(sched(rng, [1, 2, 3], rng.randint(1, 6), 30)).end())
    for i in range(300 if deep else 40):       # unloading against the self test and the status of the hwrng
        s = KScn("unload against work", rng.randint(1, 9999), **params(rng, 10)).load()
        s.T(1, "unload").T(2, "work 0", "work 0").T(3, rng.choice(["proc jitterentropy/hwrng_status", "hread 40 1", "proc jitterentropy/statistics"]))
        out.append(s.go(sched(rng, [1, 2, 3], rng.randint(1, 6), 25)).end())
    for k in range(1, 5):                        # an open that cannot be completed
        for op in ("open 0", "tinit 0", "openraw 0"):
            for f in ("kmalloc", "lalloc", "pfile", "luuid", "intr"):
                s = KScn("failed open %s" % f, k, **params(rng, 10)).load().fail(f, k).run(op, op.replace("0", "1"), "work 0", "work 1").end()
                out.append(s)
    for i in range(3000 if deep else 300):
        s = KScn("anything", rng.randint(1, 9999), **params(rng, rng.choice([0, 10]))).load().run("open 0", "tinit 0")
        if rng.random() < .4: readfault(rng, s)
        if rng.random() < .2: s.fail("lself", rng.randint(1, 3), 1)
        if rng.random() < .2: s.fail(rng.choice(["lalloc", "pfile", "lstatus", "luuid"]), rng.randint(1, 2))
        tasks = [1, 2, 3, 4][:rng.randint(2, 4)]
        for t in tasks: s.T(t, *[anyop(rng) for _ in range(rng.randint(1, 4))])
        s.go(sched(rng, tasks))
        out.append(s.end())
    return out


def g_err(rng, deep):
    out = []
    for c in CODES:
        for fips in (0, 1):
            for op in ("read 0 40 0", "read 0 40 1", "hread 40 1", "hread 40 0", "tgen 0 40"):
                for k in ((1, 2) if op == "read 0 40 0" else (1,)):
                    out.append(KScn("code %d" % c, k).env("fips", fips).load().run("open 0", "tinit 0").fail("lread", k, c)
                               .run(op, op).end())
            for op in ("read 0 40 0", "hread 40 1", "tgen 0 40"):
                out.append(KScn("code %d with another collector" % c, 1, verbose=fips).load().run("open 0", "tinit 0").fail("lread", 1, c).fail("lrealloc", 1).run(op, op).end())
    rd = ["read 0 70 0", "read 0 40 1", "hread 100 1", "hread 100 0", "hread 20 0", "tgen 0 70"]
    out += pairs(rng, "interrupted", cross(rd, rd + ["work 0", "work 1", "work 2", "proc jitterentropy/hwrng_status"]), 10, setup=("open 0", "tinit 0"), selftest_interval=10, share=1.0 if deep else .5)
    out += pairs(rng, "interrupted by a failing test", cross(rd, ["work 0", "work 1", "work 2", "ioctl 0 SELFTEST"]), 10, setup=("open 0", "tinit 0"), faults=(("lself", 1, 1),), selftest_interval=10, share=1.0 if deep else .5)
    for op in ("read 0 40 0", "read 0 40 1", "hread 40 1", "hread 40 0", "tgen 0 40"):
        for f in ("intr", "try", "lrealloc"):
            out.append(KScn("%s" % f).load().run("open 0", "tinit 0").fail(f, 1).run(op, op, "tseed 0").end())
    for n in (0, 1, 32, 33, 64, 200):
        out.append(KScn("sizes").load().run("open 0", "tinit 0", "hread %d 1" % n, "hread %d 0" % n, "tgen 0 %d" % n, "tseed 0").end())
    for i in range(2000 if deep else 150):
        s = KScn("competing", rng.randint(1, 9999), **params(rng)).env("fips", rng.choice([0, 0, 1])).load().run("open 0", "tinit 0")
        readfault(rng, s)
        tasks = [1, 2, 3][:rng.randint(2, 3)]
        for t in tasks:
            s.T(t, *[rng.choice(["hread %d %d" % (rng.choice([0, 1, 32, 64]), rng.randrange(2)), "tgen 0 %d" % rng.choice([0, 1, 32, 64]),
                                 "read 0 %d %d" % (rsize(rng), rng.randrange(2)), "work 0"]) for _ in range(rng.randint(1, 3))])
        out.append(s.go(sched(rng, tasks)).end())
    return out


def g_self(rng, deep):
    out = []
    for iv in (0, 1, 10, 3600, 2592000, 2592001, 4294967295 >> 1):
        s = KScn("interval", selftest_interval=iv).load().run("open 0", "tinit 0", "work 0", "work 1", "work 2", "work 0", "proc jitterentropy/statistics").end()
        out.append(s)
    for iv in (0, 10):
        for fips in (0, 1):
            for cap in (0, 1):
                for rc in (0, 1, -5):
                    s = KScn("on demand", selftest_interval=iv).env("fips", fips).load().run("open 0", "open 1", "tinit 0", "openraw 3").env("cap", cap)
                    if rc: s.fail("lself", 1, rc)
                    s.run("ioctl 0 SELFTEST", "read 0 40 0", "ioctl 0 SELFTEST", "work 0", "work 0", "work 0", "work 0", "read 0 40 0", "read 1 40 0", "hread 8 1",
                          "tgen 0 8", "proc jitterentropy/statistics", "ioctl 0 STATUS 100", "ioctl 3 SELFTEST", "proc jitterentropy/statistics").end()
                    out.append(s)
                    s = KScn("unbound", selftest_interval=iv).env("fips", fips).load().run("open 0", "openraw 3").env("cap", cap).env("capother", 1)
                    if rc: s.fail("lself", 1, rc)
                    s.run("ioctl 3 SELFTEST", "ioctl 3 SELFTEST", "read 0 40 0", "read 3 16 0", "proc jitterentropy/statistics").end()
                    out.append(s)
    st = ["work 0", "work 1", "ioctl 0 SELFTEST", "read 0 40 0", "close 0", "ioctl 3 SELFTEST", "proc jitterentropy/statistics"]
    out += pairs(rng, "interrupted", cross(st, st), 12, setup=("open 0", "openraw 3"), faults=(None, ("lself", 1, 1), ("lself", 2, 1)), selftest_interval=10, share=1.0 if deep else .5,
                 after=("work 0", "work 0", "ioctl 0 SELFTEST", "read 0 40 0", "proc jitterentropy/statistics"))
    for who in range(3):                         # the periodic run of each kind of instance fails
        for k in (1, 2, 3, 4):
            for fips in (0, 1):
                s = KScn("periodic failure", selftest_interval=10).env("fips", fips).load().run("open 0", "tinit 0").fail("lself", k, 1)
                s.run(*["work %d" % who] * 3, *["work 0"] * 4, "read 0 40 0", "hread 8 1", "tgen 0 8", "ioctl 0 SELFTEST", "work 0", "proc jitterentropy/statistics").end()
                out.append(s)
    for i in range(2500 if deep else 220):
        s = KScn("tests at once", rng.randint(1, 9999), **params(rng, rng.choice([10, 10, 0]))).env("fips", rng.choice([0, 0, 0, 1])).load().run("open 0", "open 1", "tinit 0")
        if rng.random() < .6: s.fail("lself", rng.randint(1, 4), 1)
        if rng.random() < .3: s.fail("intr", rng.randint(1, 4))
        if rng.random() < .3: s.fail("lrealloc", rng.randint(1, 2))
        if rng.random() < .2: s.fail("luuid", rng.randint(1, 2))
        tasks = [1, 2, 3][:rng.randint(2, 3)]
        for t in tasks:
            s.T(t, *[rng.choice(["work %d" % rng.randrange(4), "work 0", "ioctl 0 SELFTEST", "ioctl 0 SELFTEST", "read 0 40 0", "close 0", "proc jitterentropy/statistics", "hread 8 1"])
                     for _ in range(rng.randint(1, 4))])
        s.go(sched(rng, tasks)).run("work 0", "work 0", "work 0", "proc jitterentropy/statistics")
        out.append(s.end())
    return out


def g_stat(rng, deep):
    out = []
    for raw in (0, 1):
        op = "openraw 0" if raw else "open 0"
        for ln in (20, 60, 1000, 4094, 4095, 4096, 5000):
            for d in (-100, -1, 0, 1, 2, 100):
                out.append(KScn("status length").env("statlen", ln).load().run(op, "ioctl 0 STATUS %d" % max(0, ln + d)).end())
        for c in FIELD + ["LOOPCNT", "NONE", "STATUS"]:
            for f, k, v in [("none", 1, 1), ("copy", 1, 1), ("copy", 2, 3), ("copyin", 1, 1), ("intr", 1, 1), ("kmalloc", 1, 1), ("lstatus", 1, -1), ("lstatus", 1, 3), ("luuid", 1, -1)]:
                out.append(KScn("call %s %s" % (c, f)).load().run(op, "read 0 40 0").fail(f, k, v).run("ioctl 0 %s 100" % c, "ioctl 0 %s 100" % c).end())
                if c == "STATUS": out.append(KScn("call %s %s" % (c, f)).load().run(op, "read 0 40 0").fail(f, k, v).run("ioctl 0 %s 10" % c).end())
    st = ["ioctl 0 OUTPUT", "ioctl 0 STATUS 200", "ioctl 0 REINIT", "ioctl 0 UUID", "ioctl 0 OSR", "proc I:0", "proc jitterentropy/hwrng_status", "ioctl 3 STATUS 200"]
    out += pairs(rng, "interrupted", cross(st, ["read 0 70 0", "hread 40 1", "read 3 16 0", "close 0"]) + cross(["read 0 70 0", "hread 40 1", "read 3 16 0"], st), 12,
                 setup=("open 0", "openraw 3"), faults=(None, REALLOC), share=1.0 if deep else .5)
    out.append(KScn("no identity").env("uuidempty", 1).load().run("open 0", "ioctl 0 UUID").end())
    for f in ("kmalloc", "intr", "lstatus"):
        out.append(KScn("files %s" % f).load().run("open 0").fail(f).run("proc I:0", "proc I:0").fail(f).run("proc jitterentropy/hwrng_status", "proc jitterentropy/hwrng_status").end())
    out.append(KScn("removed").load().run("open 0", "open 1", "proc I:0", "proc I:1", "close 0", "proc I:0", "proc I:1", "close 1", "proc I:0", "open 2", "proc I:0").end())
    for i in range(2500 if deep else 220):
        s = KScn("status under way", rng.randint(1, 9999), **params(rng)).load().run("open 0", "open 1", "openraw 2")
        if rng.random() < .3: s.fail("lrealloc", rng.randint(1, 2))
        if rng.random() < .3: s.fail("lread", rng.randint(1, 3), rng.choice(CODES[1:]))
        if rng.random() < .3: s.fail(rng.choice(["copy", "lstatus", "intr", "kmalloc", "luuid"]), rng.randint(1, 4))
        tasks = [1, 2, 3][:rng.randint(2, 3)]
        for t in tasks:
            s.T(t, *[rng.choice(["ioctl %d %s %d" % (rng.randrange(3), rng.choice(FIELD + ["OUTPUT", "STATUS", "REINIT"]), rng.choice([10, 200])), "read 0 %d 0" % rsize(rng),
                                 "read 0 64 0", "proc I:%d" % rng.randrange(2), "hread 8 1", "proc jitterentropy/hwrng_status", "read 2 16 0", "close %d" % rng.randrange(2)])
                     for _ in range(rng.randint(1, 4))])
        out.append(s.go(sched(rng, tasks)).end())
    return out


def g_mod(rng, deep):
    out = []
    show = ["proc jitterentropy/" + x for x in ("config/flags", "config/flags_raw", "config/osr", "config/ntg1", "config/fips", "version", "statistics",
                                                "interfaces/kcapi", "interfaces/hwrng", "interfaces/chardev", "interfaces/testing")]
    for i in range(64 if not deep else 400):
        fl = rng.choice([0, rng.getrandbits(9) & 0x1fc, rng.getrandbits(32) & 0xff0001fc, rng.randint(0, 21) << 27, rng.randint(0, 7) << 24])
        p = {"osr": rng.choice([0, 1, 2, 3, 4, 20, 21]), "flags": fl, "ntg1": i & 1, "force_fips": i >> 1 & 1, "cache_all": i >> 2 & 1,
             "selftest_interval": rng.choice([0, 5, 99999999]), "hwrng_quality": rng.choice([0, 1, 1023, 1024, 1025, 65536, 65541, 66000, 70000]),
             "testing_osr": rng.choice([0, 5]), "testing_flags": rng.choice([0, 32768, 65536, 64])}
        s = KScn("parameters", i + 1, **p).env("fips", rng.randrange(2)).env("libfips", rng.randrange(2)).env("locked", rng.choice([0, 0, 1]))
        out.append(s.load().run(*show, "open 0", "tinit 0", "openraw 1", *show[-5:]).end())
    for fips in (0, 1):
        for rc in (1, 3, 9, 13):
            out.append(KScn("refused").env("fips", fips).fail("linit", 1, rc).load().end())
    for iv in (0, 10):
        for lk in (0, 1):
            for f, ks in (("misc", 1), ("hwrng", 1), ("rng", 1), ("ddir", 1), ("raw", 1), ("lalloc", 1), ("mkdir", 5), ("pfile", 13), ("kmalloc", 3)):
                for k in range(1, ks + 1):
                    s = KScn("load fails at %s %d" % (f, k), selftest_interval=iv).env("locked", lk).fail(f, k).load()
                    out.append(s.run("open 0", "work 0", "proc I:0", "hread 8 1").end())
    for a in ("misc", "hwrng", "rng", "raw", "lalloc"):
        for b in ("mkdir", "pfile"):
            for k in ((5,) if b == "mkdir" else (13,)):
                out.append(KScn("load fails at %s and %s" % (a, b), selftest_interval=10).fail(a).fail(b, k).load().end())
    # work coming due while the module is being loaded or taken back
    for i in range(500 if deep else 60):
        s = KScn("load against work", rng.randint(1, 9999), selftest_interval=10)
        if rng.random() < .6: s.fail(rng.choice(["misc", "raw", "ddir", "hwrng"]))
        s.T(1, "load").T(2, "work 0", "work 0").T(3, "open 0", "read 0 40 0", "proc jitterentropy/statistics")
        out.append(s.go(sched(rng, [1, 2, 3], rng.randint(1, 5), 40)).end())
    return out


def g_raw(rng, deep):
    out = []
    for n in (0, 1, 7, 8, 9, 12, 16, 80, 248, 256, 264, 8000, 8008, 8001):
        for tf in (0, 32768, 65536, 98304):
            out.append(KScn("raw sizes", n + 1, testing_flags=tf, testing_osr=rng.choice([0, 4])).load().run("openraw 0", "read 0 %d 0" % n, "read 0 %d 0" % n, "read 0 16 0").end())
    for v in ("0", "1", "5", "0xffffffff", "0x100000000", "0x1000000000"):
        for tf in (0, 32768):
            out.append(KScn("loop count", testing_flags=tf).load().run("openraw 0", "openraw 1", "ioctl 0 LOOPCNT %s" % v, "read 0 80 0", "read 1 16 0", "ioctl 0 LOOPCNT 7", "read 0 16 0").end())
    for f, k, v in [("copy", 1, 8), ("copy", 1, 5), ("copy", 2, 16), ("copy", 2, 9000), ("sigm", 1, 1), ("sigm", 1005, 1), ("intr", 1, 1), ("kmalloc", 1, 1), ("copyin", 1, 1)]:
        for n in (16, 80, 8000, 16016):
            out.append(KScn("raw %s" % f, testing_flags=0).load().run("openraw 0").fail(f, k, v).run("read 0 %d 0" % n, "read 0 16 0", "ioctl 0 LOOPCNT 3", "read 0 16 0").end())
    out.append(KScn("locked down").env("locked", 1).load().run("openraw 0", "read 0 16 0", "open 1", "read 1 16 0").end())
    out.append(KScn("locked down later").load().run("openraw 0", "read 0 16 0").env("locked", 1).run("openraw 1", "read 0 16 0", "read 1 16 0").end())
    for f in ("kmalloc", "lalloc", "intr"):
        out.append(KScn("raw open %s" % f).load().fail(f).run("openraw 0", "openraw 0", "read 0 16 0").end())
    # the parameters of the test interface change while it is in use
    for a in (0, 32768, 65536):
        for b in (0, 32768, 65536):
            for when in range(0, 8):
                s = KScn("raw parameters", when, testing_flags=a, testing_osr=3).load().run("openraw 0").T(1, "openraw 1", "read 0 24 0", "read 1 24 0").T(2, "param testing_flags %d" % b, "param testing_osr 5", "openraw 2")
                out.append(s.go([(when, 2)]).run("read 0 16 0", "read 1 16 0", "read 2 16 0").end())
    rw = ["read 0 24 0", "read 1 24 0", "ioctl 0 LOOPCNT 4", "ioctl 0 STATUS 100", "ioctl 0 OSR", "openraw 2", "close 1", "read 0 8 0"]
    for v in (0, 1):
        out += pairs(rng, "interrupted", cross(rw, rw), 12, setup=("openraw 0", "openraw 1"), share=1.0 if deep else .4, verbose=v)
    for when in range(1, 16):                # a long recording that lets others run
        s = KScn("long recording", when).load().run("openraw 0", "openraw 1").L("resched 1").T(1, "read 0 16016 0").T(2, "read 1 8 0", "ioctl 0 LOOPCNT 4", "read 0 264 0")
        out.append(s.go([(when, 2)]).end())
    for i in range(1500 if deep else 160):
        s = KScn("recorders", rng.randint(1, 9999), testing_flags=rng.choice([0, 0, 32768, 65536]), verbose=rng.randrange(2)).load().run("openraw 0", "openraw 1")
        s.fail("msw", 0)
        if rng.random() < .4: s.fail(rng.choice(["copy", "intr", "sigm", "kmalloc"]), rng.randint(1, 5), rng.choice([1, 8]))
        tasks = [1, 2, 3][:rng.randint(2, 3)]
        lc = False
        for t in tasks:
            for _ in range(rng.randint(1, 3)):
                o = rng.choice(["read %d %d 0" % (rng.randrange(2), rng.choice([8, 16, 40, 80])), "read 0 40 0", "ioctl %d STATUS 100" % rng.randrange(2), "loop"])
                if o == "loop":
                    if lc and lc != t: continue
                    lc = t; o = "ioctl 0 LOOPCNT %d" % rng.randint(1, 9)
                s.T(t, o)
        out.append(s.go(sched(rng, tasks)).end())
    return out


CHECKS = {"C21": (g_read, {"rd"}), "C22": (g_excl, {"excl", "life"}), "C23": (g_err, {"err"}), "C24": (g_self, {"self"}),
          "C25": (g_stat, {"stat"}), "C26": (g_mod, {"mod", "life"}), "C27": (g_raw, {"raw"})}


def run_k(scns, clauses, work, kh):
    recs = run_harness(kh, scns, work, "k")
    tr = [convert(s, r) for s, r in zip(scns, recs)]
    acc, st, diag = validate(tr, clauses, work, "kv", cfg="KmodTrace.cfg", spec="KmodTrace.tla")
    bad = [(i, diag.get(i, [])) for i in range(len(tr)) if i not in acc]
    return bad, st, recs, tr


def check(pid, tier, seed, work, rep):
    from .check import replay_path
    gen, clauses = CHECKS[pid]
    rng = random.Random("%s/%s/%d" % (pid, tier, seed))
    scns = gen(rng, tier == "thorough")
    kh = build_kmod("k-" + pid)
    tot = collections.Counter(); outc = collections.Counter(); viol = []
    for b in range(0, len(scns), 800):
        part = scns[b:b + 800]
        bad, st, recs, tr = run_k(part, clauses, work, kh)
        tot["scenarios"] += len(part); tot["states"] += st[0]; tot["distinct"] += st[1]
        for t in tr:
            ops = {}
            for e in t["ev"]:
                tot["events"] += 1
                if e["e"] == "call": ops[e["t"]] = e["op"]
                if e["e"] == "ret": outc["%s:%s" % (ops.get(e["t"]), e["r"] if e["r"] <= 0 else "bytes")] += 1
                if e["e"] in ("wait", "busy", "panic", "lrealloc", "sig"): outc[e["e"]] += 1
        if bad:
            bad2, *_ = run_k([part[i] for i, _ in bad[:8]], clauses, work, kh)
            for j, d in bad2:
                i, d0 = bad[j]
                f = replay_path(pid, "k%d.scn" % (b + i))
                with open(f, "w") as fh:
                    fh.write("# property %s: %s\n# replay: cd /verif && python3 -m vp.check --replay %s %s\n" % (pid, part[i].note, f, pid))
                    for x in (d0 or d): fh.write("# mismatch (event, observation, specification, code): %s\n" % x)
                    fh.write(part[i].script(1)); fh.write("#KSCN %s\n" % part[i].dump())
                viol.append((f, (part[i].note, (d0 or d)[:2])))
            if viol: break
    rep["module"] = {**tot, "outcomes": dict(outc), "kinds": dict(collections.Counter(s.note for s in scns).most_common(40)), "observations_compared": sorted(clauses)}
    rep["states"] += tot["distinct"]; rep["transitions"] += tot["states"]; rep["traces"] += tot["scenarios"]
    rep["samples"] += ["%s: %s" % (s.note, " ; ".join(s.body[:10])) for s in scns[:1] + scns[len(scns) // 2:len(scns) // 2 + 1] + scns[-1:]]
    return viol


def replay(path, pid):
    for l in open(path):
        if l.startswith("#KSCN "):
            s = KScn.load_json(l[6:])
            work = os.path.join(BUILD, "w-replay"); os.makedirs(work, exist_ok=True)
            bad, st, recs, tr = run_k([s], CHECKS[pid][1], work, build_kmod("k-replay"))
            for e in tr[0]["ev"]: print(json.dumps(e)[:260])
            for i, d in bad:
                for x in d: print("MISMATCH", x)
            print("rejected" if bad else "accepted")
            return 1 if bad else 0
    return None
