"""Per property: which scenarios, which observations are compared."""
from .gen import *


def many(f, n, rng, *a, **k): return [f(rng, *a, **k) for _ in range(n)]


def mids(rng, th, modes, nb, safe=None):
    return [midfail(rng, rng.choice(modes), rng.choice([3, 3, 4]), b, a, rng.choice(["rct", "rct", "ramp", "lag", "apt", "perm"]),
                    safe=rng.random() < .3 if safe is None else safe, back_again=rng.random() < .7)
            for b in range(1, nb + 1) for a in range(b) for _ in range(6 if th else 1 + (0 < a < b - 1))]


def ints(rng, kinds, n):
    """scenarios with the internal timer, memory recorded"""
    S = [internal(rng, k) for k in kinds for _ in range(n)]
    for s in S:
        if ("memlog 1", "quiet", None) not in s.items: s.items.insert(0, ("memlog 1", "quiet", None))
    return S


def c01(rng, th):
    S = []
    for mode in ("fips", "ntg1", "sysfips", "plain"):
        for kind in ("zero", "const", "ramp", "lag", "apt"):
            if th or kind in ("zero", "lag", "apt") or mode == "fips":
                S.append(ladder(rng, mode, 3, kind, n=None if mode != "plain" else 8))
    S += mids(rng, th, ("fips", "ntg1", "sysfips"), 5 if th else 4) + mids(rng, th, ("plain",), 2)
    S += many(rctmem, 6 if th else 2, rng, 3, 3500)
    S += [ladder(rng, "fips", o, "const", n=400) for o in ((4, 5, 7, 10, 14, 20) if th else (4,))]
    S += [memfail(rng, m, 3, "lag", k) for m in ("fips", "ntg1", "sysfips") for k in (range(-3, 14) if th else (0, 4, 6, 8, 10))]
    S += [memfail(rng, m, 3, t, 1) for m in ("fips", "ntg1") for t in ("mem", "rct", "apt", "ok")]
    S += [permfail(rng, m, k) for m in ("fips", "ntg1") for k in ("lag", "apt")]
    S += many(fuzz, 250 if th else 40, rng, safe=.15)
    return S


def c02(rng, th):
    S = many(args, 120 if th else 24, rng)
    S += [f for f in many(fuzz, 60 if th else 14, rng)]
    S += mids(rng, th, ("fips", "ntg1"), 4)
    for s in S: s.items.insert(0, ("dual 1", "quiet", None))
    S += [ladder(rng, "fips", 3, "zero", n=30)]
    return S


def c03(rng, th):
    S = []
    osrs = range(3, 21) if th else (3, 4, 8)
    S += [tables(rng, o, m) for o in range(3, 21) for m in ("plain", "ntg1")]
    S += [memfail(rng, m, o, t, 1) for m, o in (("fips", 3), ("ntg1", 3), ("ntg1", 4)) + ((("fips", 7), ("ntg1", 9)) if th else ()) for t in ("mem", "rct", "apt", "ok")]
    S += [memfail(rng, m, 3, t, trigger=-1) for m in ("fips", "ntg1") for t in ("mem", "rct")] + [memfail(rng, "fips", 4, "rct", 1)]
    S += [startmem(rng, m, st, 3, t) for m in ("fips", "ntg1") for st in "MS" for t in (("ok", "bad", "rct") if th or m == "ntg1" else ("ok",))]
    S += [firstdeltas(rng, m, [a, b] + noise(rng, 9)) for m in ("fips", "ntg1", "plain") for a, b in ((1000, 2000), (1000, 1000), (0, 5), (700, 2100))]
    S += [lagwindow(rng, k) for k in ("run", "fail", "const", "stuck", "first")] + ([lagwindow(rng, k, m, md) for k in ("run", "first") for m in (3, 6) for md in ("plain", "ntg1")] if th else [])
    for o in osrs:
        for mode in ("fips", "ntg1"):
            for kind in (("zero", "const", "ramp", "lag", "apt") if th or o <= 4 else (rng.choice(["zero", "ramp", "const"]), "lag", "apt")):
                S.append(ladder(rng, mode, o, kind))
        S.append(window(rng, "fips", o)); S.append(window(rng, "ntg1", o)); S.append(lag_hist(rng, o))
        if o <= 8 or th: S.append(across(rng, "fips", o))
    S += [across(rng, m, 3) for m in ("plain", "ntg1", "fips", "fips")] + [window(rng, "plain", 3)]
    S += many(rctmem, 8 if th else 3, rng, 3, 3500) + [rctmem(rng, o, 4500) for o in ((4, 5, 6, 8) if th else (4,))]
    S += [lag_global(rng, o) for o in (range(3, 21) if th else (3, 20))]
    S += many(fuzz, 200 if th else 16, rng, safe=.2)
    return S


def c04(rng, th):
    S = [ladder(rng, m, 3, k, n=60) for m in ("fips", "ntg1", "sysfips", "plain") for k in ("zero", "lag", "apt")]
    S += many(startnoise, 60 if th else 14, rng) + many(startups, 60 if th else 10, rng)
    S += [recovery(rng, m, 3, k, again=a) for m in ("fips", "ntg1", "sysfips") for k in ("rct", "lag", "apt") for a in ((0, 1, 2) if th else (1,))]
    S += [norecovery(rng, w, m) for w in ("startup", "noise", "mem", "maxosr") for m in ("fips", "ntg1")]
    S += [marked(rng, m) for m in ("fips", "ntg1", "sysfips") for _ in range(12 if th else 3)]
    S += [memfail(rng, m, 3, t, k, safe=rng.random() < .4) for m in ("fips", "ntg1") for t, k in (("mem", 0), ("rct", 1), ("lag", 4), ("lag", 8))]
    S += [startmem(rng, "ntg1", st, 3, t) for st in "MS" for t in ("bad", "rct")] + [permfail(rng, "fips", k) for k in ("lag", "apt", "rct")]
    S += many(rctmem, 2, rng, 3, 3500, safe=True) + mids(rng, th, ("fips", "ntg1"), 3)
    S += many(fuzz, 120 if th else 14, rng)
    return S


def c05(rng, th):
    S = []
    for m in ("fips", "ntg1", "sysfips"):
        for k in ("rct", "lag", "apt"):
            for a in ((0, 1, 2, 3) if th else (0, 2)):
                S.append(recovery(rng, m, rng.choice([3, 3, 4]), k, again=a, off=rng.randint(0, 900)))
    S += [rctmem(rng, 3, 3500, safe=True), recovery(rng, "ntg1", 3, "rm")]
    S += [recoverat(rng, m, rng.choice([3, 3, 4]), a) for m in ("fips", "ntg1") for a in ((1, 2, 50, 200, 300, 400, 510, 511, 512) if th else (1, 300, 511, 512))]
    S += [memfail(rng, m, 3, t, k, safe=True) for m in ("fips", "ntg1") for t, k in (("mem", 0), ("lag", 6))] + [startmem(rng, "ntg1", "S", 3, "bad")]
    for c in ((32768, -1, -1), (49152, 1 << 20, -1), (1024, 0, 0), (-1, -1, -1)):
        S.append(recovery(rng, "fips", 3, "rct", again=1, cache=c))
        S.append(recovery(rng, rng.choice(["fips", "ntg1"]), 3, "rct", again=1, cache=c, extra=CACHEALL if c[0] < 40000 and c[1] <= 0 else 0))
    S += [recovery(rng, "fips", 3, "rct", again=1, extra=e) for e in (ms(5), ms(12), hl(6), hl(7), hl(3) | ms(1), SECMEM, DISINT)]
    S += [recovery(rng, "fips", 17, "rct", again=4), recovery(rng, "fips", 19, "rct", again=1)]
    S += ints(rng, ("recover", "recover", "startup"), 10 if th else 2)
    S += [retry(rng, m, k, o) for m in ("fips", "ntg1", "sysfips") for k, o in ((1, 3), (2, 3), (3, 3), (4, 4), (3, 17), (2, 18), (3, 18))]
    S += many(startnoise, 30 if th else 5, rng) + mids(rng, th, ("fips", "ntg1", "sysfips"), 3, True)
    S += many(fuzz, 120 if th else 12, rng, safe=.9, modes=("fips", "ntg1", "sysfips"))
    return S


def c06(rng, th):
    S = []
    for w in ("startup", "startup2", "noise", "mem", "lock", "kat", "maxosr", "perm", "selftest", "near"):
        for m in ("fips", "ntg1", "sysfips"):
            for _ in range(4 if th else 1): S.append(norecovery(rng, w, m))
    S += [permfail(rng, m, k, o) for m in ("fips", "ntg1", "sysfips") for k in ("lag", "apt", "rct") for o in ((3, 4, 7) if th else (3,))]
    for k in range(1, 25 if th else 16):
        S.append(memfault(rng, "safe", "mmap", k))
    S += [memfault(rng, "safe", "mlock", k, EPERM) for k in ((1, 2, 3, 4, 5, 6, 7, 8) if th else (1, 5, 8))]
    S += ints(rng, ("recover", "startup", "all", "cpus"), 10 if th else 2)
    S += many(selfmark, 10 if th else 3, rng) + mids(rng, th, ("fips", "ntg1", "sysfips"), 3, True)
    S += many(fuzz, 100 if th else 8, rng, safe=.95, modes=("fips", "ntg1"))
    return S


def c07(rng, th):
    S = many(gate, 300 if th else 60, rng)
    S += many(startnoise, 80 if th else 14, rng) + many(gate_int, 160 if th else 24, rng)
    for k in range(1, 8):
        S.append(Scn("pre").fault("mmap", k).init().alloc(0, 3, 0).initex(3, FIPS).alloc(1, 3, FIPS))
        S.append(Scn("pre").initex(3, DISINT).fault("mmap", k).initex(3, DISINT).alloc(0, 3, DISINT).read(0, 9))
    for w in range(3):
        S.append(Scn("kat").init().kat(w).init().kat(w).alloc(0, 3, DISINT).read(0, 8))
        S.append(Scn("kat").kat(w).alloc(0, 3, DISINT).kat(w).alloc(1, 3, DISINT).read(1, 8))
    return S


def c08(rng, th):
    S = []
    for k in STARTKINDS:
        for o, f in ((0, 0), (3, DISINT), (5, FIPS | DISINT), (3, NTG1), (20, DISINT), (1, DISINT | DISMEM)):
            for _ in range(4 if th else 1): S.append(startup(rng, k, o, f) if not f & DISMEM else startup_nomem(rng, k, o, f))
    S += [startup(rng, "zeroread", o, DISINT, arg=i) for i in (0, 1, 2, 101, 1124) for o in (3, 8)]
    S += [startup(rng, "back", o, DISINT, arg=i) for i in (3, 4) for o in (3, 20)]
    for o in (range(0, 21) if th else (0, 1, 4, 8, 10, 16, 20)):
        S += [startup(rng, "stuck", o, DISINT, arg=i) for i in (0, 1)]
        S += [startup(rng, "telegraph", o, DISINT, arg=i) for i in (-1, 0)]
    S += many(startups, 400 if th else 50, rng)
    return S


def startup_nomem(rng, k, o, f):
    s = startup(rng, k, o, f)
    # one reading per measurement
    for i, it in enumerate(s.items):
        if it[1] == "ev" and it[2]["op"] == "clk":
            t = Scn()
            segs = [("s", x["n"] if not (x["v"] == [0, 0, 0, 0]) else 0, sum(v << (16 * j) for j, v in enumerate(x["v"]))) for x in it[2]["segs"]]
            segs = [x for x in segs if x[1]]
            t.clk(segs); s.items[i] = t.items[0]
    return s


def c09(rng, th):
    S = many(config, 500 if th else 110, rng)
    if th: S += many(config, 30, rng, heavy=True)
    else: S += many(config, 3, rng, heavy=True)
    S += many(caches, 150 if th else 30, rng)
    # more cache than the largest block
    S.append(Scn("automax").quiet("memlog 1").caches([(0, 0, "Data", 1, "64K", 1 << 16), (0, 1, "Unified", 2, "400M", 400 << 20), (0, 2, "Unified", 3, "200M", 200 << 20)])
             .init().alloc(0, 3, CACHEALL).free(0))
    S += [memuse(rng, m, k) for m in ("plain", "fips", "ntg1", "sysfips") for k in ("read", "safe") for _ in range(12 if th else 2)]
    return S


def c09out(rng, th):
    """the hash loop count reported is the one used: the output follows from it"""
    S = []
    for m, h in [(m, h) for m in ("plain", "fips", "ntg1") for h in range(0, 4)] + [("plain", h) for h in (4, 5, 6, 7)] if th else \
                [("plain", h) for h in range(0, 5)] + [("fips", rng.choice([1, 2])), ("ntg1", rng.choice([1, 2]))]:
        s = Scn("hashloop %s %d" % (m, h)); s.quiet("wantout 1").init().alloc(0, 3, MODES.get(m, 0) | hl(h)).read(0, 33); S.append(s)
    s = recovery(rng, "fips", 3, "rct"); s.items.insert(0, ("wantout 1", "quiet", None)); S.append(s)
    return S


def c10(rng, th):
    S = []
    for err in (EPERM, ENOMEM, EAGAIN, EINVAL, EIO):
        for mode in ("plain", "fips", "ntg1", "sec"):
            for when in ("all", "afterinit", "afteralloc"):
                S.append(lockrefused(rng, err, mode, when))
    for op in ("init", "initex", "alloc", "alloc2", "safe", "restart"):
        for k in range(1, 13 if th else 7):
            for err in (EPERM, EIO):
                for mode in (("plain", "fips", "ntg1", "sec") if th else (rng.choice(["fips", "ntg1", "sec"]), "plain")):
                    if op in ("safe", "restart") and mode in ("plain", "sec"): continue
                    S.append(memfault(rng, op, "mlock", k, err, mode))
    for k in (1, 2, 3, 5): S.append(memfault(rng, "alloc", "mprotect", k)); S.append(memfault(rng, "alloc", "madvise", k))
    S += ints(rng, ("plain", "recover", "startup", "tstart", "tinit", "mem", "two"), 12 if th else 2)
    S += intfaults(rng, th, ("mlock",))
    S += many(config, 60 if th else 10, rng)
    for s in many(fuzz, 40 if th else 4, rng): s.items.insert(0, ("memlog 1", "quiet", None)); S.append(s)
    return S


def c11(rng, th):
    S = []
    for op, n in (("init", 9), ("initex", 9), ("alloc", 14), ("alloc2", 6), ("safe", 16), ("restart", 16)):
        for k in range(1, n + 1):
            for kind in ("mmap", "mprotect"):
                modes = ("plain", "fips", "ntg1", "plaindis", "sec") if th else (rng.choice(["fips", "ntg1"]),) if op in ("safe", "restart") else (rng.choice(["plain", "fips", "ntg1", "plaindis", "sec"]),)
                for mode in modes:
                    if op in ("safe", "restart") and mode not in ("fips", "ntg1"): continue
                    S.append(memfault(rng, op, kind, k, EPERM, mode))
            S.append(memfault(rng, op, "mlock", k, rng.choice([EPERM, EIO]), rng.choice(["fips", "ntg1"])))
    S += [s.free(0) for s in many(startnoise, 60 if th else 8, rng)]
    S += [norecovery(rng, w, m) for w in ("startup", "noise", "mem", "kat", "maxosr", "lock") for m in ("fips", "ntg1")]
    S += ints(rng, ("plain", "fail", "recover", "startup", "tstart", "tinit", "all", "mem", "mixed", "mark"), 16 if th else 3)
    S += intfaults(rng, th, ("mmap", "tstart", "tinit"))
    for w in (0, 1, 2):
        S.append(Scn("kat").quiet("memlog 1").kat(w).init().kat(w).init().alloc(0, 3, DISINT).kat(w).selftest(0).initex(3, DISINT).kat(w).free(0))
        S.append(Scn("kat").quiet("memlog 1").init().alloc(0, 3, FIPS | DISINT).kat(w).clk([("s", 1530, 0)]).safe(0, 40).kat(w).clk([]).safe(0, 8).free(0))
    S += many(config, 60 if th else 10, rng) + many(gate, 60 if th else 8, rng)
    return S


def c12(rng, th):
    S = ints(rng, ("plain", "recover", "mixed", "two"), 10 if th else 2) + [pins(rng) for _ in range(60 if th else 14)]
    S += many(latches, 500 if th else 90, rng) + many(divisor, 120 if th else 16, rng)
    for why in (lambda s: s.init(), lambda s: s.initex(3, FIPS), lambda s: s.alloc(0, 3, 0), lambda s: s.alloc(0, 21, 0),
                lambda s: s.kat(0).init().kat(0), lambda s: s.mmapall(1).initex(3, 0).mmapall(0),
                lambda s: s.clk([("s", 34, 0)]).init().clk([]), lambda s: s.initex(3, NTG1 | FORCEINT),
                lambda s: s.alloc(0, 3, FORCEINT | DISINT), lambda s: s.selftest(-1)):
        for cb in (0, 1):
            s = Scn("closing"); s.setcb(cb).setcpu(3).switch(0); why(s)
            s.setcb(2).setcpu(1).switch(0).switch(15).setcb(0)
            s.alloc(3, 3, FIPS | DISINT).clk([("s", 2000, 0)]).read(3, 9).setcb(2).read(3, 9)
            S.append(s)
    # forcing the internal timer
    for fl in (NTG1, DISINT, NTG1 | FORCEINT, 0, FIPS, FORCEINT):
        for osr in (3, 7):
            s = Scn("forced"); s.setcb(1).init() if osr == 7 else s.setcb(1)
            s.clk([("s", 34, 0 if fl != FORCEINT else 3)]).initex(osr, fl).clk([]).initex(3, DISINT).alloc(0, 3, DISINT).alloc(1, 3, 0).alloc(2, 3, NTG1).read(0, 8).read(1, 8)
            s.alloc(3, 3, fl).alloc(4, 3, DISINT).init().alloc(5, 3, DISINT)
            S.append(s)
    return S


def c13(rng, th):
    S = []
    for o in (range(1, 21) if th else (1, 3, 4, 5, 7, 11, 16, 20)):
        for m in ("plain", "fips", "ntg1", "sysfips"):
            s = begin(rng, m, o); s.note = "amount %s %d" % (m, o)
            s.clk(segC(stucky(rng, 900, .6, 8))); s.read(0, 32); s.read(0, rng.choice([33, 64, 65, 1])); S.append(s)
    S += [begin(rng, "plain", 3, extra=DISMEM).clk(segC(stucky(rng, 900, .5, 8), False)).read(0, 70)]
    for _ in range(40 if th else 8):
        s = begin(rng, rng.choice(["plain", "fips", "ntg1"]), 3)
        for _ in range(5): s.clk(segC(stucky(rng, rng.choice([30, 400, 1000]), rng.random(), 9))); s.read(0, rng.randint(1, 100))
        S.append(s)
    S += many(startnoise, 40 if th else 10, rng) + many(fuzz, 100 if th else 12, rng)
    S += many(rctmem, 3, rng, 3, 900)
    S += [memfail(rng, m, 3, t) for m in ("fips", "ntg1") for t in ("ok", "mem")] + [startmem(rng, "ntg1", st, 3, "ok") for st in "MS"]
    return S


def c14(rng, th):
    S = []
    def one(mode, osr, extra=0, g=None, n=3):
        s = begin(rng, mode, osr, g=g, extra=extra); s.items.insert(0, ("wantout 1", "quiet", None))
        s.note = "output %s %d %x g %d" % (mode, osr, extra, s.g)
        for _ in range(n):
            s.clk(segC(rng.choice([noise(rng, 60, s.g), stucky(rng, 120, .5, 7), mixture(rng, 150, 3, mode == "ntg1"), back(rng, 50)]), not extra & DISMEM))
            (s.safe if rng.random() < .5 else s.read)(0, rng.choice([1, 16, 31, 32, 33, 40, 64, 65, 96, 100]))
        return s
    for m in ("plain", "fips", "ntg1", "sysfips"):
        for g in (1, 4, 100): S.append(one(m, 3, g=g))
    S += [one("plain", 3, DISMEM), one("fips", 3, hl(1)), one("fips", 3, hl(2)), one("plain", 3, hl(3)), one("plain", 3, hl(7), n=1), one("ntg1", 3, hl(2)), one("plain", 3, ms(1)), one("fips", 5)]
    for _ in range(60 if th else 8): S.append(one(rng.choice(["plain", "fips", "ntg1"]), rng.choice([3, 3, 3, 4, 6]), rng.choice([0, 0, hl(1)])))
    for k in ("rct", "lag", "apt"):
        for m in ("fips", "ntg1"):
            s = recovery(rng, m, 3, k, again=rng.choice([0, 1])); s.items.insert(0, ("wantout 1", "quiet", None)); S.append(s)
    for s in many(rctmem, 2, rng, 3, 600) + many(startnoise, 2, rng): s.items.insert(0, ("wantout 1", "quiet", None)); S.append(s)
    # interleaved collectors do not share pool state
    s = Scn("two").quiet("wantout 1").init().alloc(0, 3, 0).alloc(1, 3, FIPS)
    for _ in range(3): s.read(0, 40).read(1, 33)
    S.append(s)
    return S


def c15(rng, th):
    S = []
    for i in range(40 if th else 10):
        s = begin(rng, rng.choice(["plain", "fips", "ntg1"]), rng.choice([3, 5, 20]) if i % 4 == 0 else 3, extra=rng.choice([0, 0, hl(7), ms(10), DISINT]))
        s.note = "status"
        if rng.random() < .5: s.read(0, rng.choice([1, 100, 400]))
        if rng.random() < .5: s.clk([("s", 17 * 95, 0)]); s.read(0, 9)
        if rng.random() < .3: s.clk([]); s.safe(0, 32)
        if i < 3 or th: s.status(0, 0, 1700)
        else:
            s.status(0, 0, 40); s.status(0, 41, 1700, rng.choice([13, 17, 29]))
        s.status(-1, 0, 60); s.statusnull(0, 100); s.statusnull(-1, 50); s.statusnull(0, 0)
        S.append(s)
    S += [ladder(rng, "fips", 3, "zero", n=300)] + many(caches, 20 if th else 5, rng)
    S += [ladder(rng, m, 3, k, n=200) for m in ("fips", "plain") for k in ("zero", "lag", "apt")]
    S += many(rctmem, 1, rng, 3, 3500) + [recovery(rng, "fips", 3, "rct", again=2)]
    S += many(config, 60 if th else 16, rng) + many(fuzz, 60 if th else 8, rng)
    return S


def c16(rng, th):
    S = []
    for gm in (0, 1, 2, 3, 4):
        for um in (0, 1, 2, 3, 4):
            for _ in range(3 if th else 1):
                s = Scn("uuid getrandom %d urandom %d" % (gm, um)); s.rnd(gm, um)
                if rng.random() < .5: s.init()
                s.alloc(0, 3, rng.choice([0, FIPS])).alloc(1, 3, NTG1).alloc(2, 3, 0)
                for z in (0, 1, 36, 37, 38, 64): s.uuid(0, z)
                s.uuid(0, 37, 1).uuid(-1, 37).uuid(1, 37).uuid(2, 100)
                s.clk([("s", 17 * 95, 0)]).safe(1, 40).clk([]).uuid(1, 37).read(0, 40).uuid(0, 37)
                S.append(s)
    S += [recovery(rng, m, 3, "rct", again=2) for m in ("fips", "ntg1")] + many(startnoise, 6, rng)
    return S


def c17(rng, th):
    S = [internal(rng, k) for k in ("plain", "fail", "recover", "startup", "tstart", "tinit", "all", "mem", "cpus", "mixed", "mark", "two")
         for _ in range(40 if th else 8 if k in ("recover", "startup", "mem", "tstart") else 5)]
    S += intfaults(rng, th, ("tstart", "tinit"))
    return S


def c18(rng, th):
    S = many(selfmark, 160 if th else 34, rng)
    for m in (0, FIPS, NTG1):
        for w in (0, 1, 2):
            S.append(Scn("mark").init().alloc(0, 3, m).alloc(1, 3, m).kat(w).selftest(-1).selftest(0).kat(w).selftest(0).read(0, 1).safe(0, 32).read(0, 0).safe(0, 0).read(1, 32).safe(1, 33).free(0).alloc(0, 3, m).read(0, 8))
        for n in (1, 5000, 16389, 16390, 20000, 33000):
            S.append(Scn("inflight").init().alloc(0, 3, m).at(n, 0).read(0, 96).read(0, 1))
            S.append(Scn("inflight").init().alloc(0, 3, m).at(n, 0).safe(0, 96).safe(0, 1))
    for n in (1, 100, 1500, 1530):
        S.append(Scn("recovered").setcb(1).init().alloc(0, 3, FIPS).clk([("s", 1530, 0)]).at(n, 0).safe(0, 32).clk([]).safe(0, 32).read(0, 3))
    return S


def c20(rng, th):
    S = []
    for m in ("plain", "fips", "ntg1"):
        for n in (16, 32, 33, 40, 64, 70) if th else (32, rng.choice([40, 64, 70])):
            s = begin(rng, m, 3, g=1, extra=rng.choice([0, 0, hl(1), DISINT])); s.note = "residue %s %d" % (m, n)
            big = [rng.getrandbits(63) | 1 << 62 for _ in range(60)]
            s.clk(segC(noise(rng, 5) + big)); s.read(0, n); s.safe(0, n); s.free(0); S.append(s)
    for m in ("fips", "ntg1"):
        for k in ("rct", "lag"): S.append(recovery(rng, m, 3, k, again=0, ln=40))
        S.append(norecovery(rng, rng.choice(["noise", "startup"]), m))
        S += mids(rng, False, (m,), 2, False)[:2]
    S += many(fuzz, 30 if th else 3, rng, nops=2)
    s = Scn("two").init().alloc(0, 3, 0).alloc(1, 3, FIPS).read(0, 40).read(1, 33).free(0).read(1, 16).free(1); S.append(s)
    for s in S: s.items.insert(0, ("scan 1", "quiet", None))
    return S


# observations compared (see JentTrace) and generator
TRACE = {
    "C01": (c01, "ret nrd status past"),
    "C02": (c02, "ret bytes status past"),
    "C03": (c03, "ret nrd status cb"),
    "C04": (c04, "ret cb"),
    "C05": (c05, "ret nrd status config uuid ptr mem"),
    "C06": (c06, "ret nrd status config uuid ptr fault"),
    "C07": (c07, "ret nrd fault"),
    "C08": (c08, "ret nrd"),
    "C09": (c09, "ret config memuse"),
    "C10": (c10, "ret sec config fault"),
    "C11": (c11, "ret mem wipe fault"),
    "C12": (c12, "latch ret nrd cb config pin"),
    "C13": (c13, "ret nrd"),
    "C14": (c14, "ret out"),
    "C15": (c15, "ret statusbuf status config uuid"),
    "C16": (c16, "ret uuid"),
    "C17": (c17, "ret nrd thread pin config mem"),
    "C20": (c20, "ret residue"),
    "C18": (c18, "ret nrd status past"),
}

# further parts of a check, with observations of their own
MORE = {
    "C09": [(c09out, "ret out")],
}
