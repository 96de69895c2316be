"""Scenario generators.  Deltas are chosen per measurement and turned into
clock programs; the specification decides what must happen."""
import random
from .core import *

M64 = (1 << 64) - 1


def segC(deltas, mem=True, nz=False):
    """clock increments so that successive run-time measurements see these deltas"""
    out = []
    for d in deltas:
        if mem and nz and d > 32:     # the internal timer never reads the same value twice
            out.append(("s", 16, 1)); out.append(("s", 1, d - 16))
        elif mem:
            out.append(("s", 16, 0)); out.append(("s", 1, d))
        else:
            out.append(("s", 1, d))
    return squash(out)


def segMS(deltas, gap=7):
    out = []
    for d in deltas:
        out.append(("s", 1, gap)); out.append(("s", 1, d))
    return squash(out)


def squash(segs):
    r = []
    for s in segs:
        if r and s[0] == "s" and r[-1][0] == "s" and r[-1][2] == s[2]:
            r[-1] = ("s", r[-1][1] + s[1], s[2])
        else:
            r.append(s)
    return r


def noise(rng, n, g=1):
    return [rng.randint(1000, 90000) * g for _ in range(n)]


def const(rng, n, g=1):
    return [rng.choice([0, rng.randint(1, 50000) * g])] * n


def ramp(rng, n, g=1):
    a, c = rng.randint(10, 50000), rng.choice([1, 3, 17, 200])
    return [(a + c * i) * g for i in range(n)]


def periodic(rng, n, p, g=1):
    v = rng.sample(range(1000, 90000), p)
    # avoid accidental stuck triples
    return [v[i % p] * g for i in range(n)]


def dense(rng, n, run, g=1):
    """one value almost always, interrupted often enough for short runs"""
    a = rng.randint(1000, 50000) * g
    out = []
    while len(out) < n:
        k = rng.randint(max(1, run // 2), run)
        out += [a] * k + [a + rng.randint(1, 400) * g]
    return out[:n]


def stucky(rng, n, p, maxrun, g=1):
    """measurements that are stuck with probability p, by third derivative"""
    out = [rng.randint(10000, 20000)]; run = 0; sl = 5
    for i in range(1, n):
        if rng.random() < p and run < maxrun:
            out.append(out[-1] + sl); run += 1
        else:
            sl = rng.choice([x for x in (-900, -300, -7, 5, 11, 401, 1003, 77) if x != sl]); run = 0
            nx = out[-1] + sl
            if nx < 5000 or nx > 200000:
                nx = rng.randint(20000, 60000); sl = nx - out[-1]
            out.append(nx)
    return [x * g for x in out]


def back(rng, n, g=1):
    return [(-rng.randint(1, 5000) * g) & M64 if rng.random() < .3 else rng.randint(1, 9000) * g for _ in range(n)]


def rctcut(osr, ntg): return -(-30 * osr // 8) if ntg else 30 * osr


def mixture(rng, total, osr, ntg, g=1):
    """random concatenation of suspicious and healthy stretches"""
    out = []
    rc = rctcut(osr, ntg)
    while len(out) < total:
        k = rng.randrange(9)
        if k == 0: out += noise(rng, rng.randint(5, 300), g)
        elif k == 1: out += const(rng, rng.choice([2, 3, rc - 2, rc - 1, rc, rc + 1, rc + 2, 2 * rc - 1, 2 * rc, 2 * rc + 2]), g)
        elif k == 2: out += ramp(rng, rng.choice([3, rc - 1, rc, rc + 1, rc + 2, rc + 3, rc // 2]), g)
        elif k == 3: out += periodic(rng, rng.choice([20, 37 * osr - 2, 37 * osr + 10, 59 * osr + 20]), rng.randint(2, 8), g)
        elif k == 4: out += dense(rng, rng.choice([200, 512, 700, 1100]), max(2, rc - 2), g)
        elif k == 5: out += stucky(rng, rng.choice([100, 400, 900]), rng.choice([.2, .4, .5, .8]), max(2, rc - 2), g)
        elif k == 6: out += back(rng, rng.randint(3, 60), g)
        elif k == 7: out += periodic(rng, rng.randint(10, 90), rng.choice([9, 10, 16]), g)
        else: out += noise(rng, rng.randint(1, 12), g)
    return out[:total]


def good_start(rng, g=1):
    """clock program for a successful startup test with common divisor g"""
    d = noise(rng, 1125, g)
    d[500], d[501], d[502] = 1000 * g, 1001 * g, 1777 * g
    return segC(d)


MODES = {"plain": 0, "fips": FIPS, "ntg1": NTG1}


def begin(rng, mode, osr, cb=1, g=None, extra=0, slot=0):
    """callback, initialization, one collector"""
    s = Scn()
    if cb: s.setcb(1)
    if mode == "sysfips":
        s.fips(1)
    fl = MODES.get(mode, 0) | extra
    if g is None: g = rng.choice([1, 1, 1, 1, 2, 4, 100])
    if g > 1: s.clk(good_start(rng, g))
    s.g = g
    if rng.random() < .5: s.init()
    else: s.initex(osr, fl)
    if g > 1: s.clk([])
    s.alloc(slot, osr, fl)
    return s


def osr_pick(rng, lo=3, hi=20):
    return min(hi, max(lo, rng.choice([0, 1, 3, 3, 3, 3, 3, 4, 5, 6, 8, 11, 15, 20])))


def fuzz(rng, nops=4, modes=("plain", "fips", "fips", "ntg1", "ntg1", "sysfips"), safe=.4, hi=8, budget=6000):
    mode = rng.choice(modes); osr = osr_pick(rng, hi=hi); ntg = mode == "ntg1"
    extra = 0
    if mode == "plain" and rng.random() < .3: extra |= DISMEM
    s = begin(rng, mode, osr, cb=rng.random() < .9, extra=extra)
    s.note = "fuzz %s osr %d" % (mode, osr)
    left = budget
    for _ in range(nops):
        o2 = max(3, osr)
        k = rng.random()
        n = rng.choice([1, 7, 31, 32, 33, 40, 64, 65, 100])
        d = mixture(rng, min(left, rng.choice([300, 900, 1500, 2500])), o2, ntg, rng.choice([1, s.g]))
        left = max(400, left - len(d))
        if rng.random() < .8:
            s.clk(segC(d, not (extra & DISMEM)))
        (s.safe if k < safe else s.read)(0, n)
        if rng.random() < .25:
            for _ in range(rng.randint(1, 6)): s.read(0, 16)
    if rng.random() < .5: s.free(0)
    return s


# ---------------------------------------------------------------- families
QN = ("q", 60013, 7, 30011)          # parameters of the default noise
def qnoise(n): return [("q", n, 60013, 7, 30011)]


def nosr(osr, fips=True):
    return -(-(256 + (65 if fips else 0)) * osr // 3) * 3


def ladder(rng, mode, osr, kind, n=None, cb=1):
    """a failing source read again and again: one measurement per call once failed"""
    ntg = mode == "ntg1"; o = max(3, osr); rc = rctcut(o, ntg)
    s = begin(rng, mode, osr, cb=cb, g=1)
    s.note = "ladder %s %s osr %d" % (kind, mode, o)
    if kind == "zero": d = [0] * 1400; first, calls = rc, 2 * rc + 20
    elif kind == "const": d = [5005] * 1400; first, calls = rc, 2 * rc + 20
    elif kind == "ramp": d = [7000 + 3 * i for i in range(1400)]; first, calls = rc, rc + 20
    elif kind == "lag": d = periodic(rng, 60 * o + 300, rng.randint(2, 8)); first, calls = 40 * o, 24 * o + 20
    elif kind == "apt":
        d = dense(rng, 2200, max(2, rc - 2)); first, calls = 500, 90
    else: raise ValueError(kind)
    if n is not None: calls = n
    s.clk(segC(noise(rng, rng.randint(0, 40)) + d))
    s.read(0, 32)
    for i in range(calls): s.read(0, 1 + i % 40)
    s.clk([])
    s.read(0, 32); s.read(0, 1)
    return s


def rctmem(rng, osr, keep, safe=False):
    """NTG.1: stuck in every third measurement without long runs"""
    s = begin(rng, "ntg1", osr, g=1)
    s.note = "rctmem osr %d keep %d" % (osr, keep)
    o = max(3, osr); rc = rctcut(o, True)
    d = stucky(rng, keep, .85, max(2, rc - 2))
    s.clk(segC(d))
    (s.safe if safe else s.read)(0, 64)
    s.read(0, 32); s.read(0, 33)
    return s


def lag_global(rng, osr, mode="fips", perm=True):
    """correct predictions until the window-wide cutoff, never in long runs"""
    s = begin(rng, mode, osr, g=1)
    s.note = "lag global osr %d %s" % (osr, mode)
    run = 36 * osr
    glob = [66443, 93504, 104761, 110875, 114707, 117330, 119237, 120686, 121823, 122739, 123493, 124124, 124660,
            125120, 125520, 125871, 126181, 126457, 126704, 126926][osr - 1]
    globp = [66876, 93896, 105108, 111188, 114993, 117596, 119486, 120920, 122045, 122951, 123696, 124318, 124847,
             125301, 125695, 126041, 126346, 126617, 126860, 127079][osr - 1]
    # one value per period position; the interruption reuses the clock program's
    # compactness: 'const' increments over a period of three via three segments
    v = [11013, 12007, 15031]
    segs = []; n = 0; tot = 131072 + 400
    body = []
    while n < tot:
        k = min(run, tot - n)
        for i in range(k): body.append(v[(n + i) % 3])
        n += k
        body.append(40009 + (n % 7)); n += 1
    s.clk(segC(body))
    blocks = (glob + 2000) // nosr(osr) + 1
    s.quiet("limit 40000000")
    s.read(0, 32 * blocks)
    if perm:
        for i in range(globp - glob + (globp - glob) // run * 4 + 12): s.read(0, 1)
    return s


def across(rng, mode, osr):
    """windows must continue over call boundaries: many short reads over one pattern"""
    ntg = mode == "ntg1"; o = max(3, osr); rc = rctcut(o, ntg)
    s = begin(rng, mode, osr, g=1)
    s.note = "across calls %s osr %d" % (mode, o)
    d = []
    N = nosr(o, mode != "plain")
    for _ in range(6):
        # a suspicious run straddling the end of the block
        pre = noise(rng, N + 1 - rng.randint(1, 20))
        d += pre + rng.choice([const(rng, rc - 1), ramp(rng, rc - 1), periodic(rng, 37 * o - 4, 3), const(rng, rc + 1)])
    s.clk(segC(d))
    for _ in range(6): s.read(0, 32)
    return s


def window(rng, mode, osr):
    """one value kept just below / above the proportion cutoff over several windows"""
    ntg = mode == "ntg1"; o = max(3, osr); rc = rctcut(o, ntg)
    s = begin(rng, mode, osr, g=1)
    s.note = "apt window %s osr %d" % (mode, o)
    d = noise(rng, rng.randint(0, 600))
    a = rng.randint(1000, 9000)
    run = max(2, rc - 2)
    cut = [325, 422, 459, 477, 488, 494, 499, 502, 505, 507, 508, 509, 510, 511, 512, 512, 512, 512, 512, 512][o - 1]
    if ntg:
        cut = [17, 71, 136, 191, 236, 272, 301, 325, 345, 361, 375, 388, 398, 407, 415, 422, 429, 434, 439, 444][o - 1]
    per = cut - rng.randint(0, 6)
    for _ in range(6):
        w = [a] * per + [0] * (512 - per)
        # spread the interruptions
        out = []; left = 512 - per; i = 0
        while len(out) < 512:
            k = min(run, per - (len([x for x in out if x == a])))
            if left == 0 or k > 0 and rng.random() < .7: out += [a] * max(1, min(k, 512 - len(out)))
            else: out.append(a + rng.randint(1, 500)); left -= 1
        d += out
    s.clk(segC(d))
    s.read(0, 32 * rng.randint(2, 4)); s.read(0, 40)
    return s


def lag_hist(rng, osr):
    """patterns whose best predictor changes and history wraps"""
    s = begin(rng, rng.choice(["fips", "plain"]), osr, g=1)
    d = []
    for _ in range(10):
        p = rng.randint(2, 8)
        d += periodic(rng, rng.randint(2 * p, 37 * osr), p) + noise(rng, rng.randint(0, 9))
    d += periodic(rng, 60 * osr, rng.randint(2, 8))
    s.note = "lag history osr %d" % osr
    s.clk(segC(d)); s.read(0, 96); s.read(0, 32)
    return s


def slopes(rng, T, want, run):
    while True:
        flags = [1] * want + [0] * (1024 - want); rng.shuffle(flags)
        if "1" * (run + 1) in "".join(map(str, flags)): continue
        d = noise(rng, T); cur = 300000; sl = 3; d[-1] = cur; d[-2] = cur - sl
        for f in flags:
            if not f: sl = rng.choice([x for x in (-211, -97, 5, 13, 89, 203) if x != sl])
            cur += sl; d.append(cur)
        n = sum(d[i] == d[i - 1] or d[i] - d[i - 1] == d[i - 1] - d[i - 2] for i in range(T, len(d)))
        if n == want and min(d) > 0: return d


def telegraph(rng, T, want, g=1):
    """want changes between the test measurements T .. T+1023"""
    d = noise(rng, T); v = 50000 * g; at = set(rng.sample(range(T + 1, T + 1024), want))
    for i in range(T, T + 1024):
        if i in at: v = (50000 + 50001) * g - v
        d.append(v)
    return d


def startup(rng, kind, osr=0, fl=0, plain=None, arg=None):
    """clock programs for the startup test; deltas of priming, warm-up and test"""
    s = Scn(); s.setcb(1)
    d = noise(rng, 1125)
    s.note = "startup %s osr %d fl %x" % (kind, osr, fl)
    o = max(osr, 3)
    T = 101                                    # first test measurement
    start = None
    if kind == "zerodelta": d[rng.choice([1, 2, 50, 100, 101, 102, 600, 1123, 1124])] = 0
    elif kind == "zeroprime": d[0] = 0
    elif kind == "zeroread":
        i = rng.choice([0, 1, 2, 60, 101, 102, 700, 1124]) if arg is None else arg; x = sum(d[:i + 1]); start = -x
    elif kind == "back":
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 10]) if arg is None else arg
        for i in rng.sample(range(T, 1125), n): d[i] = -rng.randint(1, 9000)
    elif kind == "backwarm":
        for i in rng.sample(range(1, T), rng.randint(4, 20)): d[i] = -rng.randint(1, 9000)
    elif kind == "stuck":
        # constant slopes: stuck, yet no repetition; exact number of stuck ones
        want = 921 + (rng.choice([-2, -1, 0, 0, 0, 1, 1, 2]) if arg is None else arg); d = slopes(rng, T, want, 30 * o - 3)
    elif kind == "telegraph":
        # two neighbouring values, the exact number of changes, irregular: healthy, but little variation
        want = -(-1024 // o) + (rng.choice([-1, -1, 0, 0, 1]) if arg is None else arg); d = telegraph(rng, T, want)
    elif kind == "telegraphg": d = telegraph(rng, T, 1024 // o // arg - rng.randint(1, 9), arg)
    elif kind == "rct":
        n = 30 * o + rng.choice([-1, 0, 0, 1, 2, 30 * o]); i = rng.choice([1, 30, 100, 102, 600, 1120 - 2 * n if 1120 > 2 * n + 5 else 3])
        d[max(i, 1):max(i, 1) + n] = [4004] * n; d = d[:1125]
    elif kind == "rctw":                       # run over the warm-up boundary
        d[60:60 + 30 * o + rng.choice([-1, 0, 1])] = [4004] * (30 * o + 0); d = d[:1125]
    elif kind == "apt":
        k = rng.randint(5, 300); x = dense(rng, 700, 30 * o - 3); d[k:k + 700] = x; d = d[:1125]
    elif kind == "lag":
        k = rng.randint(5, 200); n = 37 * o + rng.choice([-3, 5, 30]); d[k:k + n] = periodic(rng, n, rng.randint(2, 8)); d = d[:1125]
    elif kind == "var":
        # small variations around a large constant; sum around 1024 / osr
        base = 50000; want = 1024 // o + rng.choice([-3, -1, 0, 1, 2, 9])
        d = [base] * 1125; steps = max(1, want // 2); pos = sorted(rng.sample(range(T + 2, 1120, 2), min(steps, 500)))
        extra = want
        for p in pos:
            if extra < 2: break
            d[p] = base + 1; extra -= 2
        if extra == 1: d[1124] = base + 1
        # (also fails health tests for few variations; the order is the point)
    elif kind == "var2":
        # no long repetition, still little variation: cycle of nearby values
        want = 1024 // o + rng.choice([-1, 0, 1])
        d = [50000 + (i % 2) for i in range(1125)]
        seq = [50000] * 1125
        k = 0
        for p in range(T + 1, 1125):
            if k < want and rng.random() < .9 * want / 1000 + .02: seq[p] = seq[p - 1] + rng.choice([-1, 1]); k += 1
            else: seq[p] = seq[p - 1]
        d = seq
    elif kind == "gcd":
        g = rng.choice([2, 3, 1000, 0x7ffffffe, 0x7fffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffff * 2, 1 << 40])
        d = [rng.randint(1, 3000) * g for _ in range(1125)]
        d[200], d[201] = 1000 * g, 1001 * g
    elif kind == "gcdwarm":                    # warm-up deltas do not count for the divisor
        g = rng.choice([2, 7, 64])
        d = [rng.randint(100, 9000) * g for _ in range(1125)]; d[400], d[401] = 999 * g, 1000 * g
        for i in range(0, T): d[i] += 1
    elif kind == "good": pass
    elif kind == "coarse": d = [rng.choice([1, 2, 3, 4, 5, 6, 7, 9]) * rng.choice([100]) for _ in range(1125)]
    elif kind == "fuzz": d = mixture(rng, 1125, o, bool(fl & NTG1)); d = [x or 1 for x in d]
    if start is not None: s.clkset(start & M64)
    s.clk(segC([x & M64 for x in d]))
    if plain or plain is None and rng.random() < .4 and not fl and osr == 0: s.init()
    else: s.initex(osr, fl)
    return s


STARTKINDS = ["zerodelta", "zeroprime", "zeroread", "back", "back", "backwarm", "stuck", "stuck", "rct", "rct", "rctw", "apt",
              "lag", "var", "var", "var2", "telegraph", "gcd", "gcd", "gcdwarm", "good", "coarse", "fuzz"]


def startups(rng, n=3):
    """several startup tests in one process: earlier ones must not matter"""
    fl = rng.choice([0, 0, DISINT, FIPS, FIPS | DISINT, NTG1, NTG1, DISINT | SECMEM, DISINT | CACHEALL, DISINT | DISMEM])
    osr = rng.choice([0, 1, 2, 3, 3, 4, 5, 7, 12, 20])
    s = startup(rng, rng.choice(STARTKINDS), osr, fl)
    for _ in range(rng.randint(0, n - 1)):
        # the internal timer may be forced by a failure without DISINT
        k = rng.choice(STARTKINDS)
        t = startup(rng, k, osr, fl | DISINT if rng.random() < .8 else fl, plain=False)
        s.items += t.items[1:]; s.note += " + " + t.note
    if rng.random() < .5: s.clk([]).alloc(0, osr, fl & ~DISMEM | DISINT).read(0, 32)
    return s


def config(rng, heavy=False):
    """requested configurations, valid and not"""
    s = Scn(); s.quiet("memlog 1")
    if rng.random() < .25: s.fips(1)
    if rng.random() < .7:
        l1 = rng.choice([-1, 0, 1, 1024, 16384, 32768, 32768, 49152, 65536, 65535, 65537, 131072, 1 << 20])
        l2 = rng.choice([-1, 0, 262144, 524288, 1 << 20])
        l3 = rng.choice([-1, 0, 1 << 20, 4 << 20])
        s.sysconf(l1, l2, l3)
    if rng.random() < .8: s.init()
    s.note = "config"
    for i in range(rng.randint(3, 6)):
        fl = 0
        for b in (DISMEM, FORCEINT, DISINT, FIPS, NTG1, CACHEALL, SECMEM):
            if rng.random() < (.12 if b == FORCEINT else .3): fl |= b
        fl |= hl(rng.choice([0, 0, 0, 1, 2, 3, 5, 7]))
        fl |= ms(rng.choice([0, 0, 0, 1, 2, 5, 9, 12, 13] + ([20, 21, 31] if heavy else [])))
        osr = rng.choice([0, 1, 2, 3, 3, 3, 3, 4, 5, 6, 20, 21, 22, 100, 4000000000])
        if fl & 7 << 24 and osr > 5: osr = 3
        s.alloc(0, osr, fl)
        if rng.random() < .3: s.read(0, 5)
        if rng.random() < .25: s.alloc(1, 3, rng.choice([0, FIPS, NTG1, DISMEM | DISINT, DISINT | FIPS])); s.free(1)
        s.free(0)
        if rng.random() < .2: s.fips(rng.choice([0, 1, -1, 2]))
    return s


def memfault(rng, op, kind, k, err=EPERM, mode="fips", osr=3):
    """the k-th memory operation of one call fails; then everything is used and freed"""
    s = Scn(); s.quiet("memlog 1"); s.setcb(1)
    fl = {"plain": 0, "fips": FIPS, "ntg1": NTG1, "sec": SECMEM, "plaindis": DISMEM | DISINT}[mode]
    fl |= DISINT if mode != "plain" else 0
    s.note = "memfault %s %s %d err %d %s" % (op, kind, k, err, mode)
    if op == "init": s.fault(kind, k, err).init(); s.init(); s.alloc(0, osr, fl)
    elif op == "initex": s.fault(kind, k, err).initex(osr, fl); s.initex(osr, fl); s.alloc(0, osr, fl)
    elif op == "alloc": s.fault(kind, k, err).alloc(0, osr, fl); s.alloc(1, osr, fl); s.free(1)
    elif op == "alloc2": s.initex(osr, fl); s.alloc(1, osr, fl); s.fault(kind, k, err).alloc(0, osr, fl); s.read(1, 8)
    elif op == "restart":      # startup noise fails once, the replacement meets the fault
        s.initex(osr, fl); s.clk(segMS([0] * 200)); s.fault(kind, k, err).alloc(0, osr, fl)
    elif op == "safe":
        s.initex(osr, fl); s.alloc(0, osr, fl); s.clk([("s", 17 * 30 * osr, 0)])
        s.fault(kind, k, err).safe(0, 40); s.safe(0, 33)
    return s.free(0).free(1).free(-1)


def intfault(rng, op, kind, k, err=EPERM, mode="fips", ext=False, osr=3):
    """the same with the internal timer; also its threads and contexts fail"""
    s = Scn(); s.quiet("memlog 1"); s.setcb(1)
    if ext: s.switch(0).ncpu(2)
    else: s.ncpu(4)
    fl = {"plain": 0, "fips": FIPS, "sec": SECMEM}[mode] | FORCEINT
    s.note = "intfault %s %s %d err %d %s %s" % (op, kind, k, err, mode, "ext" if ext else "builtin")
    f = (lambda: s.tfault(kind, k)) if kind in ("tstart", "tinit") else (lambda: s.fault(kind, k, err))
    if op == "initex": f(); s.initex(osr, fl); s.initex(osr, fl); s.alloc(0, osr, fl)
    elif op == "alloc": f(); s.alloc(0, osr, fl); s.alloc(1, osr, fl); s.read(1, 9); s.free(1)
    elif op == "alloc2": s.initex(osr, fl); s.alloc(1, osr, fl); f(); s.alloc(0, osr, fl); s.read(1, 8)
    elif op == "restart":
        s.initex(osr, fl); s.clk([("s", 2 * 400, 50)]); f(); s.alloc(0, osr, fl); s.clk([])
    elif op == "safe":
        s.initex(osr, fl); s.alloc(0, osr, fl); s.clk([("s", 17 * 93, 50)]); f(); s.safe(0, 40); s.clk([]); s.safe(0, 33)
    return s.free(0).free(1).free(-1)


def intfaults(rng, th, kinds):
    S = []
    for op, n in (("initex", 6), ("alloc2", 6), ("safe", 8), ("restart", 8), ("alloc", 10)):
        for kind in kinds:
            ks = range(1, n + 1) if th else range(1, 3) if kind[0] == "t" else range(1, n + 1)
            for k in ks:
                for mode in (("plain", "fips", "sec") if th else ("fips" if op in ("safe", "restart") else rng.choice(["fips", "sec", "plain"]),)):
                    if op in ("safe", "restart") and mode != "fips": continue
                    S.append(intfault(rng, op, kind, k, rng.choice([EPERM, EIO]) if th or mode == "plain" else EPERM, mode, kind == "tinit" or (kind == "tstart" and rng.random() < .3)))
    return S


def lockrefused(rng, err, mode, when):
    s = Scn(); s.quiet("memlog 1")
    fl = {"plain": 0, "fips": FIPS, "ntg1": NTG1, "sec": SECMEM}[mode] | DISINT
    s.note = "lock refused %d %s %s" % (err, mode, when)
    if when == "all": s.lockall(1, err)
    s.initex(3, fl)
    if when == "afterinit": s.lockall(1, err)
    s.alloc(0, 3, fl)
    if when == "afteralloc": s.lockall(1, err)
    s.clk([("s", 17 * 90, 0)] if rng.random() < .7 else [])
    s.safe(0, 40); s.read(0, 8)
    s.alloc(1, 3, 0); s.alloc(2, 3, SECMEM); s.alloc(3, 3, FIPS)
    s.lockall(0); s.alloc(4, 3, NTG1)
    for i in range(5): s.free(i)
    s.free(-1)
    return s


def latches(rng, n=14):
    s = Scn(); s.note = "latches"
    inited = False; live = set()
    mf = False                        # the internal timer may have been forced
    for _ in range(n):
        k = rng.randrange(12)
        if k in (4, 5): mf = True
        if k == 0: s.setcb(rng.choice([0, 1, 2]) if inited else rng.choice([0, 1, 1]))
        elif k == 1: s.setcpu(rng.choice([0, 1, 99]))
        elif k == 2: s.switch(rng.choice([0, 0, 1, 2, 4, 8, 15, 16, 3]))
        elif k == 3: s.init(); inited = True
        elif k == 4: s.initex(rng.choice([0, 3, 5, 21]), rng.choice([0, FIPS, NTG1, DISINT, NTG1 | FORCEINT, DISINT | FIPS])); inited = True
        elif k == 5: s.alloc(0 if 0 not in live else 1, rng.choice([3, 3, 4, 21]), rng.choice([0, FIPS, NTG1, DISINT, FORCEINT, FORCEINT | DISINT])); live.add(0 if 0 not in live else 1); inited = True
        elif k == 6: s.selftest(-1)
        elif k == 7: s.clk(segC([rng.choice([4, 6, 10]) * rng.randint(100, 9000) for _ in range(1125)])); s.initex(3, DISINT); s.clk([]); inited = True
        elif k == 8: s.clk([("s", 2000, 5) if mf else ("s", 34, 0)]); s.initex(3, rng.choice([DISINT, NTG1, 0, 0, FIPS])); s.clk([]); inited = mf = True
        elif k == 9 and live: s.clk(segC([4 * rng.randint(100, 110) + rng.randint(0, 3) for _ in range(900)], nz=mf)); s.read(rng.choice(sorted(live)), 40); s.clk([])
        elif k == 10 and live: x = rng.choice(sorted(live)); s.free(x); live.discard(x)
        elif k == 11: s.kat(0); s.initex(3, DISINT); s.kat(0); inited = True
    s.clk([("s", 3000, 5)]); s.alloc(2, 3, FIPS); s.read(2, 8)
    return s


def divisor(rng):
    """the first established divisor stays, whatever later startup tests see"""
    s = Scn(); s.note = "divisor"; s.setcb(1)
    gs = [rng.choice([1, 2, 3, 4, 6, 8, 12, 100, 999]) for _ in range(3)]
    fl = rng.choice([0, FIPS, NTG1]) | DISINT
    if rng.random() < .3:
        t = startup(rng, rng.choice(["zerodelta", "back", "rct", "stuck", "stuck"]), 3, fl, plain=False); s.items += t.items[1:]
    if rng.random() < .4:       # too little variation, and a divisor that must not stay
        t = startup(rng, "telegraphg", 3, fl, plain=False, arg=2); s.items += t.items[1:]; gs[0] = rng.choice([1, 1, 3])
    for g in gs:
        s.clk(good_start(rng, g))
        if g == gs[0] and rng.random() < .3: s.alloc(3, 3, fl)
        else: s.initex(3, fl)
        s.clk([]); s.alloc(0, 3, fl)
        # deltas that differ by less than the divisor look the same after division
        b = gs[0]
        s.clk(segC([b * 700 + rng.randint(0, b - 1) if rng.random() < .6 else rng.randint(1000, 9000) for _ in range(700)]))
        s.read(0, 32); s.clk([]); s.free(0)
    return s


def recovery(rng, mode="fips", osr=3, kind="rct", again=0, extra=0, cache=None, off=0, ln=None):
    """an intermittent failure at an exact position, good startup, optionally bad again"""
    s = Scn(); s.setcb(1)
    if cache: s.sysconf(*cache)
    ntg = mode == "ntg1"; fl = MODES.get(mode, 0) | extra
    if mode == "sysfips": s.fips(1)
    s.note = "recovery %s %s osr %d again %d" % (kind, mode, osr, again)
    s.initex(osr, fl); s.alloc(0, osr, fl)
    if rng.random() < .5: s.read(0, rng.choice([16, 40]))
    o = max(3, osr); hashl = 1
    segs = []
    for i in range(again + 1):
        rc = rctcut(o, ntg)
        pre = noise(rng, off)
        if kind == "rct": d = pre + [0] * rc
        elif kind == "lag": d = pre + periodic(rng, 37 * o + 40, rng.randint(2, 8))
        elif kind == "apt": d = pre + dense(rng, 1100, max(2, rc - 2))
        else: d = pre + stucky(rng, 1500, .9, max(2, rc - 2))
        if i == 0: segs += segC(d)
        else:
            # the replacement starts at its cutoffs
            segs += segC(noise(rng, rng.randint(0, 3)) + (d if rng.random() < .7 else [0, 0, 0]))
        o += 1
        segs += qnoise(19125 + 4 * nosr(o))
    s.clk(segs)
    s.safe(0, ln or rng.choice([1, 32, 40, 64, 100]))
    s.clk([]); s.safe(0, 33); s.read(0, 7)
    if rng.random() < .5:
        s.clk([("s", 17 * 2, 0)]); s.read(0, 8); s.clk([]); s.safe(0, 8)
    s.free(0)
    return s


def norecovery(rng, why, mode="fips"):
    s = Scn(); s.setcb(1); fl = MODES.get(mode, 0) | rng.choice([0, DISINT])
    if mode == "sysfips": s.fips(1)
    osr = 20 if why == "maxosr" else rng.choice([3, 3, 4, 17])
    s.note = "norecovery %s %s" % (why, mode); ntg = mode == "ntg1"
    s.initex(osr, fl); s.alloc(0, osr, fl)
    if rng.random() < .5: s.read(0, 40)
    bad = [("s", 17 * rctcut(osr, ntg), 0)]
    if why == "startup": s.clk(bad + [("s", 20000, rng.choice([0, 0, 1000]))])
    elif why == "startup2":      # startup tests fail for another reason, then pass at a higher rate
        s.clk(bad + segC([rng.randint(900, 99999) if i % 37 else 0 for i in range(3)]) + segC(noise(rng, 20) + [0] + noise(rng, 30) + [0]))
    elif why == "noise":         # startup noise of the replacement fails, several times
        s.clk(bad + qnoise(19125) + segMS([0] * 200) + qnoise(19125) + segMS([0] * rng.choice([50, 400])))
    elif why == "mem": s.clk(bad); s.mmapall(1)
    elif why == "lock": s.clk(bad); s.lockall(1, rng.choice([EPERM, EIO, ENOMEM]))
    elif why == "kat": s.clk(bad); s.kat(rng.choice([0, 1, 2]))
    elif why == "maxosr": s.clk(bad)
    elif why == "perm":
        n = 2 * rctcut(osr, ntg) + 2
        s.clk([("s", 17 * n, 0)])
        for _ in range(n - rctcut(osr, ntg) + 1): s.read(0, 3)
    elif why == "selftest": s.kat(0); s.selftest(0); s.kat(0); s.clk(bad)
    elif why == "near": s.clk(bad + [("s", 100, 0)])
    s.safe(0, rng.choice([1, 32, 50, 64])); s.safe(0, 1)
    if why in ("mem",): s.mmapall(0)
    if why == "lock": s.lockall(0)
    if why == "kat": s.kat(int(s.items[[i for i, x in enumerate(s.items) if x[0].startswith("kat")][0]][0].split()[1]))
    s.clk([])
    if rng.random() < .6: s.read(0, 5)
    s.safe(0, 40); s.read(0, 8); s.free(0)
    return s


def gate(rng):
    """allocation after failing and passing initializations, in any order"""
    s = Scn(); s.setcb(1); s.note = "gate"
    cur = 0; live = []
    broken = {0: False, 1: False, 2: False}; mm = False; lk = False
    for _ in range(rng.randint(4, 8)):
        k = rng.randrange(11)
        fl = rng.choice([0, FIPS, NTG1, DISINT, DISINT | FIPS, DISINT | SECMEM]) | (DISINT if rng.random() < .6 else 0)
        if k == 0: w = rng.choice([0, 1, 2]); s.kat(w); broken[w] = not broken[w]
        elif k == 1: s.mmapall(0 if mm else 1); mm = not mm
        elif k == 2: s.fault("mmap", rng.randint(1, 7)); s.initex(3, fl)
        elif k == 3: s.fault("mlock", rng.randint(1, 6), rng.choice([EPERM, EIO])); s.initex(3, fl)
        elif k == 4: s.clk([("s", rng.choice([20, 400, 2000]), 0)]); s.initex(3, fl | DISINT); s.clk([])
        elif k == 5: s.initex(rng.choice([0, 3, 21]), fl)
        elif k == 6: t = startup(rng, rng.choice(STARTKINDS), 3, fl | DISINT, plain=False); s.items += t.items[1:]; s.clk([])
        elif k == 7: s.selftest(-1)
        elif k == 8: s.initex(3, NTG1 | FORCEINT)
        elif k == 9: s.fault("mmap", rng.randint(1, 9)); s.alloc(7, 3, fl); s.free(7)
        if rng.random() < .5:
            s.alloc(cur, rng.choice([3, 3, 4]), fl); live.append(cur); cur += 1
            if rng.random() < .5: s.read(cur - 1, 4)
        if cur > 5: break
    s.alloc(6, 3, rng.choice([DISINT, NTG1, FIPS | DISINT])); s.read(6, 8)
    return s


def startnoise(rng):
    """startup noise collection of a compliance-mode collector goes wrong"""
    mode = rng.choice(["fips", "ntg1", "sysfips"]); ntg = mode == "ntg1"; osr = rng.choice([3, 3, 4, 18, 20])
    s = Scn(); s.setcb(1); fl = MODES.get(mode, 0)
    if mode == "sysfips": s.fips(1)
    s.note = "startnoise %s osr %d" % (mode, osr)
    s.initex(osr, fl)
    N = nosr(osr); rc = rctcut(osr, ntg)
    k = rng.randrange(5)
    if k == 0: segs = segMS(noise(rng, rng.randint(0, N)) + [0] * rc)
    elif k == 1: segs = segMS(mixture(rng, 2 * N + 50, osr, ntg))
    elif k == 2: segs = segMS(noise(rng, N - rc + 2) + [0] * (rc - 2) + [0] * (rc - 2))  # stage border: fresh repetition count
    elif k == 3: segs = segMS([0] * (2 * rc + 5)) + qnoise(19125) + segMS([0] * 300) + qnoise(19125) + segMS([0] * 9000)
    else: segs = segMS(noise(rng, N) + mixture(rng, N, osr, ntg)) + qnoise(19125) + segMS(mixture(rng, N, osr + 1, ntg))
    s.clk(segs)
    if rng.random() < .3: s.fault(rng.choice(["mmap", "mprotect"]), rng.randint(4, 14))
    s.alloc(0, osr, fl)
    s.clk([]); s.read(0, 33); s.safe(0, 40)
    return s


def selfmark(rng):
    """on-demand self test failures on one of several collectors at any time"""
    s = Scn(); s.note = "selfmark"; s.setcb(1)
    modes = [rng.choice([0, FIPS, NTG1]) for _ in range(3)]
    s.init()
    for i, m in enumerate(modes): s.alloc(i, 3, m)
    for _ in range(rng.randint(4, 9)):
        k = rng.randrange(9); x = rng.randrange(3)
        if k == 0: s.kat(rng.choice([0, 1, 2])); s.selftest(rng.choice([x, x, -1])); s.items.append(s.items[-2])  # toggled back
        elif k == 1: s.selftest(rng.choice([x, -1]))
        elif k in (2, 3): s.at(rng.randint(1, 30000), rng.choice([x, rng.randrange(3), -1])); (s.read if rng.random() < .5 else s.safe)(x, rng.choice([1, 32, 64, 96, 130]))
        elif k == 4:
            s.clk([("s", 17 * rng.choice([12, 90, 95]), 0)])
            if rng.random() < .6: s.at(rng.randint(1, 1700), x)
            s.safe(x, 40); s.clk([])
        elif k == 5: s.read(x, 0); s.safe(x, 0)
        elif k == 6: s.cbst(1); s.kat(0); s.clk([("s", 17 * 95, 0)]); s.read(x, 33); s.kat(0); s.clk([]); s.cbst(0)
        else: (s.read if rng.random() < .5 else s.safe)(x, rng.choice([1, 33, 64]))
    for i in range(3): s.safe(i, 8); s.read(i, 8)
    return s


def args(rng):
    s = Scn(); s.note = "arguments and lengths"; s.quiet("dual 1")
    mode = rng.choice(["plain", "fips", "ntg1"]); fl = MODES[mode]
    if rng.random() < .5: s.init()
    s.alloc(0, rng.choice([1, 3]), fl)
    for _ in range(10):
        k = rng.randrange(9); f = s.safe if rng.random() < .5 else s.read
        if k == 0: f(-1, rng.choice([0, 1, 40]), rng.choice([0, 1]))
        elif k == 1: f(0, 0, rng.choice([0, 1]))
        elif k == 2: f(0, rng.choice([1, 32, 1 << 40, (1 << 63) + 5, (1 << 64) - 1]), 1)
        elif k == 3 and mode != "plain": s.clk([("s", 17 * 95, 0)]); s.read(0, rng.choice([1, 31, 32, 33, 64])); s.clk([]); s.read(0, 40)
        elif k == 4: f(1, rng.choice([0, 5]), rng.choice([0, 1]))     # slot never allocated
        else: f(0, rng.choice([1, 2, 15, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 200]))
    return s


def midfail(rng, mode, osr, blocks, at, kind, safe=False, back_again=True):
    """a request of several blocks whose source fails during block at (from 0), then may come back"""
    ntg = mode == "ntg1"; o = max(3, osr); rc = rctcut(o, ntg)
    s = begin(rng, mode, osr, g=1)
    s.note = "midfail %s %s osr %d block %d of %d" % (kind, mode, o, at, blocks)
    if rng.random() < .5: s.read(0, rng.choice([5, 33]))
    off = at * (nosr(o) + 1) + rng.randint(3, nosr(o) - 2 * rc - 5)
    if kind == "rct": d = [0] * (rc + rng.choice([0, 0, 1, 5]))
    elif kind == "ramp": d = [7000 + 3 * i for i in range(rc + 4)]
    elif kind == "lag": d = periodic(rng, 38 * o + 20, rng.randint(2, 8))
    elif kind == "apt": d = dense(rng, 1100, max(2, rc - 2))
    else: d = [0] * (2 * rc + 9)
    segs = qnoise(17 * off) + segC(d)
    if not back_again: segs += [("s", 19999, 0)]
    s.clk(segs)
    (s.safe if safe else s.read)(0, 32 * blocks - rng.choice([0, 0, 1, 13, 31]))
    s.read(0, 1); s.read(0, rng.choice([40, 64, 100])); s.read(0, 32)
    return s


def intbegin(rng, how=None, ext=None, mode="plain", osr=3, extra=0, s=None):
    """a process that uses the internal timer; how: init, initfall, alloc, allocfall"""
    s = s or Scn()
    how = how or rng.choice(["initex", "initfall", "initexfall", "alloc", "allocfall"])
    if ext is None: ext = rng.random() < .5
    if rng.random() < .7: s.setcb(1)
    if ext: s.switch(0).ncpu(rng.choice([1, 2, 4]))
    else: s.ncpu(rng.choice([2, 3, 4]))
    if rng.random() < .4: s.setcpu(rng.choice([0, 1, 2, 3, 5, 9, 17, 40]))
    if mode == "sysfips": s.fips(1)
    fl = MODES.get(mode, 0) | extra
    s.note = "internal %s %s %s" % (how, "ext" if ext else "builtin", mode)
    s.fl = fl | (FORCEINT if rng.random() < .5 else 0); s.osr = osr
    m = 1 if extra & DISMEM else 17
    if how == "initex": s.initex(osr, fl | FORCEINT)
    elif how in ("initfall", "initexfall", "allocfall"):
        # the hardware clock fails: stands still, or is too regular
        s.clk([("s", 2 * (17 if how == "initfall" else m), 0)] if rng.random() < .5 else [("s", 1125 * (17 if how == "initfall" else m), 1000)])
        if how == "initfall": s.init()
        elif how == "initexfall": s.initex(osr, fl)
        else: s.alloc(7, osr, fl); s.clk([])
        s.clk([])
    else: s.fl = fl | FORCEINT
    return s


STEADY = ("s", 400000, 50)      # counter moving at a constant rate: stuck


def internal(rng, kind=None):
    kind = kind or rng.choice(["plain", "fail", "recover", "startup", "tstart", "tinit", "all", "mem", "cpus", "mixed", "mark", "two"])
    mode = rng.choice(["plain", "fips", "fips", "sysfips"]) if kind not in ("fail", "recover", "startup") else rng.choice(["fips", "fips", "sysfips"])
    ext = rng.random() < .6
    if kind == "tinit": ext = True
    if kind in ("mem", "cpus"): ext = False
    extra = rng.choice([0, 0, 0, hl(1), ms(3), DISMEM if mode == "plain" else 0])
    if kind == "mixed":
        s = Scn(); 
        if mode == "sysfips": mode = "fips"
        if ext: s.switch(0)
        else: s.ncpu(4)
        fl = MODES[mode]; s.setcb(1); s.init().alloc(0, 3, fl).alloc(1, 3, fl | DISINT).read(0, 33)
        s.alloc(2, 3, fl | FORCEINT).read(2, 40).read(0, 9).read(1, 9).alloc(3, 3, fl).alloc(4, 3, DISINT).read(3, 9)
        s.clk([STEADY]).safe(rng.choice([0, 1, 2, 3]), 40).clk([]).safe(0, 8).safe(2, 8).initex(3, rng.choice([0, DISINT, NTG1, FIPS])).alloc(5, 3, rng.choice([0, FIPS, NTG1]))
        for i in rng.sample(range(6), 6): s.free(i)
        s.note = "internal mixed"
        return s
    s = intbegin(rng, ext=ext, mode=mode, extra=extra); s.note += " " + kind
    n = rng.choice([1, 32, 33, 70])
    if kind == "plain":
        s.alloc(0, 3, s.fl).read(0, n).safe(0, n).read(0, 0).read(-1, 4).read(0, 4, 1).safe(0, 0).free(0).free(-1)
    elif kind == "fail":
        s.alloc(0, 3, s.fl).clk([("s", rng.choice([17 * 89, 17 * 90 + 4, 17 * 95, 17 * 200]), 50)]).read(0, n).read(0, n).clk([]).safe(0, n).read(0, 5).free(0)
    elif kind == "recover":
        s.alloc(0, 3, s.fl).clk([("s", rng.choice([17 * 91, 17 * 93, 17 * 130]), 50)])
        if rng.random() < .5:
            s.tfault("tstart", rng.randint(1, 4)) if rng.random() < .7 or not ext else s.tfault("tinit", rng.randint(1, 3))
        s.safe(0, n).clk([]).safe(0, n).uuid(0, 37).read(0, 3).free(0)
    elif kind == "startup":
        s.clk([("s", rng.choice([2 * 70, 2 * 92, 2 * 95, 2 * 400, 2 * 4000]), 50)])
        if rng.random() < .5: s.tfault(rng.choice(["tstart", "tstart", "tinit"]) if ext else "tstart", rng.randint(1, 5))
        s.alloc(0, 3, s.fl).clk([])
        s.alloc(1, 3, s.fl).read(1, n).free(1)
    elif kind in ("tstart", "tinit"):
        if rng.random() < .5: s.alloc(0, 3, s.fl)
        else: s.tfault(kind, rng.randint(1, 3)); s.alloc(0, 3, s.fl)
        s.tfault(kind, rng.randint(1, 2)); s.initex(3, rng.choice([0, FORCEINT, FIPS]))
        s.alloc(1, 3, s.fl)
        if kind == "tstart": s.tfault(kind, 1); s.read(1, n); s.tfault(kind, 1); s.safe(1, n)
        s.read(1, n).free(1)
    elif kind == "all":
        k = "tstart" if not ext else rng.choice(["tstart", "tinit"])
        if rng.random() < .7: s.alloc(0, 3, s.fl)
        s.tall(k, 1).initex(3, s.fl).alloc(1, 3, s.fl).tall(k, 0)
        s.alloc(2, 3, s.fl).tall(k, 1).read(2, n).safe(2, n).read(2, 0).tall(k, 0).read(2, n).free(2)
    elif kind == "mem":
        s.items.insert(0, ("memlog 1", "quiet", None))
        if rng.random() < .5:
            s.fault(rng.choice(["mmap", "mmap", "mprotect"]), rng.randint(1, 12)); s.alloc(0, 3, s.fl); s.alloc(1, 3, s.fl); s.read(1, n); s.free(1)
        else:
            s.alloc(0, 3, s.fl | FIPS & ~DISMEM if not s.fl & DISMEM else s.fl)
            s.clk([("s", 17 * 93, 50)]); s.fault("mmap", rng.randint(1, 14)); s.safe(0, n).clk([]).safe(0, n).free(0)
    elif kind == "cpus":
        s.alloc(0, 3, s.fl).ncpu(1).read(0, n).alloc(1, 3, s.fl).initex(3, s.fl).clk([("s", 17 * 93, 50)]).safe(0, n).clk([]).ncpu(3).alloc(2, 3, s.fl).safe(0, n).free(0).read(2, 8)
    elif kind == "mark":
        s.alloc(0, 3, s.fl).at(rng.choice([1, 9000, 14000, 17000, 20000]), 0).read(0, 96).read(0, 4).safe(0, 4).free(0)
    else:
        s.alloc(0, 3, s.fl).alloc(1, 4, s.fl).read(0, n).read(1, n).safe(0, n).free(0).read(1, n).free(1)
    return s


def gate_int(rng, n=7):
    """histories of initializations and allocations with the internal timer available: its tests
    pass or fail (constant rate, refused memory or thread), it is forced early, late or never"""
    s = Scn("gate internal"); s.setcb(1)
    if rng.random() < .6: s.switch(0); ext = True
    else: s.ncpu(4); ext = False
    first = rng.choice(["init", "init", "disint", "force", "none"])
    if first == "init": s.init()
    elif first == "disint": s.initex(3, DISINT)
    elif first == "force": s.initex(3, FORCEINT)
    live = []; slot = 0
    for _ in range(n):
        bad = rng.choice(["", "", "", "steady", "steady", "mem", "tstart"] + ["tinit"] * ext)
        if bad == "steady": s.clk([("s", rng.choice([17 * 1300, 17 * 2000, 60000]), 50)])
        elif bad == "mem": s.fault("mmap", rng.randint(1, 9))
        elif bad: s.tfault(bad, 1)
        k = rng.randrange(5)
        if k < 3 and slot < 6:
            s.alloc(slot, rng.choice([3, 3, 5]), rng.choice([FORCEINT, FORCEINT, 0, FORCEINT | FIPS, DISINT])); live.append(slot); slot += 1
        elif k == 3: s.initex(3, rng.choice([0, FORCEINT, FORCEINT, DISINT, FIPS, NTG1]))
        else: s.init()
        if bad == "steady": s.clk([])
    for x in live[:2]: s.read(x, 1)
    return s


# ---------------------------------------------------------------- repetition count with memory, exactly
def thirds(rng, n, first, d=None):
    """continue the deltas d so that exactly the positions i = first, first + 3, ... of the new n ones are stuck"""
    d = list(d or []); k = len(d); s = rng.choice([3, 7, 40, 211])
    for i in range(n):
        if i >= first and (i - first) % 3 == 0 and len(d) >= 2 and 2 * d[-1] - d[-2] > 0: d.append(2 * d[-1] - d[-2])
        elif i >= first and (i - first) % 3 == 0: d.append(d[-1])
        else:
            while True:
                x = rng.randint(20000, 90000)
                nxt = (i + 1 - first) % 3 == 0 and i + 1 >= first
                # leave room for the following one to be on the line
                if nxt and len(d) and 2 * x - d[-1] <= 0: continue
                if len(d) < 2 or x != d[-1] and x - d[-1] != d[-1] - d[-2]: break
            d.append(x)
    return d[k:]


RMCUT = {True: [4, 46, 134, 255, 399, 560, 733, 856] + [107 * o for o in range(9, 21)], False: [107 * o for o in range(1, 21)]}


def memfail(rng, mode, osr=3, tail="mem", k=0, safe=False, trigger=0, cb=1):
    """stuck in every third measurement up to the memory test's trigger, then a second time (tail mem), with a lag
    run completing around it (lag), a repetition run (rct) or a healthy source (ok) during the re-check"""
    ntg = mode == "ntg1"; o = max(3, osr); cut = RMCUT[ntg][o - 1] + trigger
    s = begin(rng, mode, osr, cb=cb, g=1); s.note = "memfail %s %s osr %d k %d" % (tail, mode, o, k)
    d = [rng.randint(20000, 90000), 0]                 # priming, then the block (which starts with a stuck one)
    d += thirds(rng, 3 * (cut - 1), 2, d)
    if tail == "mem": d += thirds(rng, 2 + 3 * (cut - 1), 1, d)
    elif tail == "lag":
        run = [38, 75, 111, 146, 181, 215, 250, 284][o - 1]
        n = 2 + 3 * (cut - 1); a = n - run - 12 + k
        d += thirds(rng, max(a, 1), 1, d)
        v = rng.sample(range(20000, 90000), 4); base = len(d) - (2 + 3 * (cut - 1))
        pat = [v[0], v[1], v[2], v[2], v[3], v[0]]
        d += [pat[(base + i - 1) % 6] for i in range(n + 30 - base)]
    elif tail == "rct": d += thirds(rng, rng.choice([2, 30, 200]), 1, d) + [rng.choice([0, 7777])] * (rctcut(o, ntg) + k)
    elif tail == "apt": d += dense(rng, 1100, max(2, rctcut(o, ntg) - 2))
    s.clk(segC(d))
    (s.safe if safe else s.read)(0, rng.choice([32, 40, 64])); s.read(0, 1); s.read(0, 33)
    s.clk([]); s.safe(0, 32)
    return s


def startmem(rng, mode="ntg1", stage="M", osr=3, tail="ok"):
    """the memory test's re-check happens inside the startup noise collection of a new collector"""
    o = max(3, osr); ntg = mode == "ntg1"; cut = RMCUT[ntg][o - 1]
    s = Scn("startmem %s %s osr %d %s" % (mode, stage, o, tail)); s.setcb(1); fl = MODES.get(mode, 0)
    if mode == "sysfips": s.fips(1)
    s.initex(osr, fl)
    # no priming measurement in the startup stages
    if stage == "S": d = noise(rng, nosr(o)); d += thirds(rng, 1 + 3 * cut, 0, d)
    else: d = [0] + thirds(rng, 3 * cut, 2, [0])
    segs = segMS(d[:(nosr(o) if stage == "S" else 0) + 1 + 3 * (cut - 1)])
    if tail == "bad": segs += segC([50000, 0] + thirds(rng, 3 * cut, 2, [50000, 0]))
    elif tail == "rct": segs += segC(noise(rng, 400) + [0] * (rctcut(o, ntg) + 2))
    s.clk(segs); s.alloc(0, osr, fl); s.clk([]); s.read(0, 40); s.safe(0, 8); s.free(0)
    return s


def firstdeltas(rng, mode, dd, osr=3):
    """the very first deltas of a new collector: the derivatives start from nothing"""
    s = Scn("firstdeltas %s %s" % (mode, dd[:4])); s.setcb(1); fl = MODES.get(mode, 0)
    if mode == "sysfips": s.fips(1)
    s.initex(osr, fl)
    s.clk(segMS(dd) if mode != "plain" else segC(dd)); s.alloc(0, osr, fl); s.read(0, 33)
    s.clk([]); s.read(0, 32)
    return s


APTCUT = {False: [325, 422, 459, 477, 488, 494, 499, 502, 505, 507, 508, 509, 510, 511] + [512] * 6,
          True: [17, 71, 136, 191, 236, 272, 301, 325, 345, 361, 375, 388, 398, 407, 415, 422, 429, 434, 439, 444]}
APTCUTP = {False: [355, 447, 479, 494, 502, 507, 510] + [512] * 13,
           True: [26, 92, 162, 221, 267, 303, 332, 355, 375, 390, 404, 415, 425, 433, 440, 447, 453, 458, 462, 466]}
LAGCUT = [38, 75, 111, 146, 181, 215, 250, 284, 318, 351, 385, 419, 452, 485, 518, 551, 584, 617, 650, 683]
LAGCUTP = [60, 119, 177, 234, 291, 347, 404, 460, 516, 571, 627, 683, 738, 793, 848, 903, 958, 1013, 1068, 1123]


def defnoise(n, per=17, o=0):
    """deltas of measurements that consume the default noise"""
    out = []
    for i in range(n):
        a = o + per * i
        out.append(per * 60013 + _p5(a + per) - _p5(a))
    return out


def _p5(o):
    x = o % 30011; x2 = x * x % 30011; x4 = x2 * x2 % 30011
    return x4 * x % 30011 * 7 % 30011


class Aim:
    """keeps count of what the health tests see, to place patterns exactly (aim only: the specification judges)"""
    def __init__(self, rng, osr, fips):
        self.rng = rng; self.N = nosr(osr, fips); self.d = []; self.obs = 0
        self.h = [0] * 8; self.lo = 0; self.lr = 0; self.lb = 0; self.ls = [0] * 8
        self.as_ = False; self.ab = None; self.ac = self.ao = 0; self.rct = 0
        self.ctr = -1; self.mk = 0; self.blocks = 1       # ctr -1: priming comes next

    def H(self, k): return self.h[(self.lo - k - 1) % 8]

    def feed(self, x, blocks=True):
        e2 = x - self.H(0); st = x == 0 or e2 == 0 or e2 == self.H(0) - self.H(1)
        if not self.as_: self.ab, self.as_, self.ac, self.ao = x, True, 1, 1
        else:
            self.ac += x == self.ab; self.ao += 1; self.as_ = self.ao < 512
        if self.lo >= 8:
            self.lr = self.lr + 1 if self.H(self.lb) == x else 0
            for i in range(8):
                if self.H(i) == x:
                    self.ls[i] += 1
                    if self.ls[i] > self.ls[self.lb]: self.lb = i
        self.h[self.lo % 8] = x; self.lo += 1
        self.rct = self.rct + 1 if st else 0
        if blocks:
            if self.ctr < 0: self.ctr = self.mk = 0
            else:
                self.mk += 1
                if not st: self.ctr += 1
                if self.ctr >= self.N: self.ctr = -1; self.blocks += 1
        return st

    def add(self, x): self.d.append(x); return self.feed(x)
    def quiet(self, n):
        for _ in range(n): self.one()
    def one(self):
        while True:
            x = self.rng.randint(20000, 900000)
            if x not in self.h and x != self.ab and x - self.H(0) != self.H(0) - self.H(1): break
        self.add(x)
    def to_window(self):
        while self.as_: self.one()
    def to_block(self):
        """up to (and with) the priming measurement of the next block"""
        while self.ctr >= 0: self.one()
        self.one()
    def apt(self, count, total=512, maxrun=10 ** 9):
        """a window whose first value occurs count times in total"""
        self.to_window()
        a = self.rng.randint(20000, 900000); others = total - count; gap = total / (others + 1)
        marks = {int(gap * (i + 1)) for i in range(others)}
        for i in range(total): self.add(a) if i not in marks else self.one()
    def lag(self, target, p=3):
        v = self.rng.sample(range(20000, 900000), p); self.one(); i = 0
        while self.lr < target and i < target + 900: self.add(v[i % p]); i += 1
        self.one()
    def run(self, target, s=0):
        self.one(); x = self.H(0)
        while self.rct < target: x += s; self.add(x)
        self.one()
    def mem(self, count):
        """from the start of a block: count stuck ones where the memory test looks"""
        self.to_block(); k = 0; first = True
        while k < count:
            if self.mk % 3 == 0:
                x = 2 * self.H(0) - self.H(1)
                self.add(x if x > 0 and not first else self.H(0)); k += 1; first = False
            else: self.one()
            if self.ctr < 0: break


def tables(rng, osr, mode="plain"):
    """every cutoff of one oversampling rate: just below, exactly at it, and the same for the permanent ones"""
    ntg = mode == "ntg1"; rc = rctcut(osr, ntg); rcp = -(-60 * osr // 8) if ntg else 60 * osr
    s = Scn("tables %s osr %d" % (mode, osr)); s.setcb(1); fl = MODES.get(mode, 0)
    s.initex(3, fl).clk([]).alloc(0, osr, fl)
    A = Aim(rng, osr, mode != "plain"); i = osr - 1; p = rng.randint(2, 8)
    if mode == "plain":
        for x in defnoise(2 * A.N):
            if A.blocks > 1: break
            A.feed(x)
        for up, tab in ((0, 0), (1, 0), (0, 1), (1, 1)):
            b = A.blocks
            A.apt((APTCUTP if tab else APTCUT)[False][i] - 1 + up)
            A.lag((LAGCUTP if tab else LAGCUT)[i] - 1 + up, p)
            A.run((rcp if tab else rc) - 1 + up, 3 if tab or rng.random() < .5 else 0)
            while A.ctr >= 0: A.one()
            s.clk(segC(A.d)); A.d = []
            s.read(0, 32 * (A.blocks - b))
        return s
    if not ntg: raise ValueError
    for j in range(2 * A.N): A.feed(60013 + _p5(2 * j + 2) - _p5(2 * j + 1), False)
    A.quiet(3); A.run(rc - 1); A.lag(LAGCUT[i] - 1, rng.randint(2, 8)); A.apt(APTCUT[True][i] - 1)
    A.mem(RMCUT[True][i] - 1)
    A.mem(RMCUT[True][i])
    b = A.blocks
    A.apt(APTCUTP[True][i])
    s.clk(segC(A.d)); s.read(0, 32 * b)
    # the failing call ends where the window reached its cutoff; the rest one by one
    d = A.d[-512:]; a = d[0]; pos = [j for j, x in enumerate(d) if x == a]
    for _ in range(pos[APTCUTP[True][i] - 1] - pos[APTCUT[True][i] - 1] + 3): s.read(0, 1)
    return s


def lagwindow(rng, kind, osr=3, mode="fips"):
    """the predictor's window ends: a run crosses the end, or the first deltas of the next window are special"""
    s = Scn("lagwindow %s %s osr %d" % (kind, mode, osr)); s.setcb(1); fl = MODES.get(mode, 0)
    s.initex(3, fl).clk([]).alloc(0, osr, fl)
    N = nosr(osr, mode != "plain"); got = 2 * N if mode != "plain" else N + 1
    blocks = (131072 - (300 if kind != "const" else 1200) - got) // (N + 1); s.quiet("limit 40000000")
    s.read(0, 32 * blocks); got += blocks * (N + 1)
    left = 131072 - got                                   # observations until the window ends
    if kind == "run":
        d = noise(rng, left - 60); v = rng.sample(range(20000, 90000), 4)
        d += [v[i % 4] for i in range(60 + 8 + 37 * osr - 20)]
    elif kind == "const": left -= 8; v = rng.sample(range(20000, 90000), 4); d = noise(rng, left - 1096) + ([v[i % 4] for i in range(75)] + noise(rng, 2)) * 13 + [v[i % 4] for i in range(95)] + [40009] * (8 + 45)
    elif kind == "fail": d = noise(rng, left - 60); v = rng.sample(range(20000, 90000), 4); d += [v[i % 4] for i in range(60 + 12 + 39 * osr)]
    elif kind == "stuck": d = noise(rng, left - 40) + [5005] * (40 + 30 * osr - 30)
    else: a = rng.randint(1000, 9000); d = noise(rng, left) + [a, 2 * a, 7, 7, 9 * a, 17 * a, 25 * a + 1]
    s.clk(segC(d)); s.read(0, 64); s.read(0, 33); s.clk([]); s.read(0, 40)
    return s


def aimed(rng, mode, osr, s=None, note=""):
    """a collector in compliance mode and an Aim that knows what its health tests have seen"""
    s = s or Scn(note); s.setcb(1); fl = MODES.get(mode, 0)
    if mode == "sysfips": s.fips(1)
    s.initex(3, fl).clk([]).alloc(0, osr, fl)
    A = Aim(rng, osr, True)
    for j in range(2 * A.N): A.feed(60013 + _p5(2 * j + 2) - _p5(2 * j + 1), False)
    A.quiet(3)
    return s, A


def recoverat(rng, mode, osr, at, ln=40, hit=True):
    """the failure that starts a recovery falls on the at-th observation of a proportion window; the replacement
    then meets a source that soon repeats one value too often"""
    s, A = aimed(rng, mode, osr, note="recoverat %s osr %d window position %d" % (mode, osr, at)); ntg = mode == "ntg1"
    rc = rctcut(osr, ntg); A.to_window()
    if at > rc: A.quiet(at - rc)
    else: A.quiet(512 - rc + at)
    A.d += [0] * rc
    o = osr + 1
    pre = [A.ab] * rng.choice([0, 1, 3]) if hit and at >= rc else []
    x = rng.randint(20000, 90000); body = []
    r2 = max(2, rctcut(o, ntg) // 3)
    for i in range(1100): body.append(x if (i + 1) % r2 else x + rng.randint(1, 500))
    s.clk(segC(A.d) + qnoise(19125 + 4 * nosr(o)) + segC(pre + body))
    s.read(0, 0); s.safe(0, ln); s.clk([]); s.read(0, 8)
    return s


def permfail(rng, mode, kind, osr=3):
    """a permanent failure of one test, reached one measurement per call; nothing repairs it"""
    s, A = aimed(rng, mode, osr, note="permfail %s %s osr %d" % (kind, mode, osr)); ntg = mode == "ntg1"; i = osr - 1
    if kind == "lag": A.lag(LAGCUTP[i], rng.randint(2, 8)); n = LAGCUTP[i] - LAGCUT[i] + 2
    elif kind == "apt": A.apt(APTCUTP[ntg][i]); n = 512
    else: A.run(-(-60 * osr // 8) if ntg else 60 * osr, rng.choice([0, 3])); n = rctcut(osr, ntg) + 3
    if kind == "apt":
        d = A.d[-512:]; pos = [j for j, x in enumerate(d) if x == d[0]]; n = pos[APTCUTP[ntg][i] - 1] - pos[APTCUT[ntg][i] - 1] + 2
    s.clk(segC(A.d)); s.read(0, 32 * A.blocks)
    k = rng.randint(n - 4, n + 1)                     # around the call that makes it permanent
    for _ in range(k): s.read(0, 1)
    s.clk([]); s.safe(0, 40); s.safe(0, 1); s.read(0, 8)
    return s


def marked(rng, mode):
    """the collector is marked by a failed self test while a call is under way whose source fails"""
    s = begin(rng, mode, 3, g=1); s.note = "marked %s" % mode; ntg = mode == "ntg1"; rc = rctcut(3, ntg)
    s.clk([("s", 17 * rng.choice([rc, rc + 1, rc + 40]), 0)]); s.at(rng.randint(1, 17 * rc), 0)
    (s.safe if rng.random() < .5 else s.read)(0, 40); s.read(0, 1); s.safe(0, 8)
    return s


def retry(rng, mode, k, osr=3):
    """recovery whose startup test fails k times before it passes"""
    s = Scn("retry %s %d osr %d" % (mode, k, osr)); s.setcb(1); fl = MODES.get(mode, 0) | DISINT
    if mode == "sysfips": s.fips(1)
    s.initex(3, fl).alloc(0, osr, fl)
    segs = [("s", 17 * rctcut(osr, mode == "ntg1"), 0)]
    for _ in range(k): segs += segC(noise(rng, rng.choice([1, 20, 100])) + [0])
    s.clk(segs); s.safe(0, rng.choice([33, 40, 64])); s.clk([]); s.safe(0, 32); s.read(0, 8); s.free(0)
    return s


def pins(rng):
    """the timer thread's CPU: set before, refused after the first use; further calls do not change it"""
    s = Scn("pins"); s.ncpu(rng.choice([2, 3, 4]))
    ext = rng.random() < .3
    if ext: s.switch(0)
    if rng.random() < .7: s.setcpu(rng.choice([0, 1, 2, 3, 5, 9, 17, 40]))
    if rng.random() < .3: s.setcpu(rng.choice([0, 3, 8, 33]))
    if ext and rng.random() < .5: s.switch(0)
    s.initex(3, rng.choice([FORCEINT, FORCEINT | FIPS])) if rng.random() < .7 else s.init()
    s.setcpu(rng.randrange(0, 6))
    if rng.random() < .4: s.switch(0)
    s.alloc(0, 3, FORCEINT | rng.choice([0, FIPS])).read(0, 8).setcpu(rng.randrange(0, 6)).read(0, 40)
    s.clk([("s", 17 * 93, 50)]).safe(0, 8).clk([]).setcpu(1).alloc(1, 3, FORCEINT).read(1, 8).free(0).read(1, 3)
    return s


def cachetree(rng):
    """what the system tells about its caches: several processors of different kinds, odd attributes"""
    ents = []
    for c in rng.sample(range(8), rng.randint(1, 4)):
        big = rng.choice([1, 1, 2, 4]); i = 0
        for t, l, kb in (("Data", 1, rng.choice([16, 32, 48, 64]) * big), ("Instruction", 1, 512), ("Unified", 2, rng.choice([0, 256, 512, 1024]) * big),
                         ("Unified", 3, rng.choice([0, 0, 1024, 4096])), ("Unified", 4, rng.choice([0, 0, 0, 0, 8192])), ("Unified", 1, rng.choice([0, 0, 0, 0, 128])),
                         ("Data", 2, rng.choice([0, 0, 0, 300]))):
            if not kb: continue
            k = rng.randrange(14); z, n = "%dK" % kb, kb * 1024
            if k == 0 and kb % 1024 == 0: z, n = "%dM" % (kb // 1024), n
            elif k == 1: z = "%d" % n
            elif k == 2: z, n = rng.choice(["-", "0K", "-4K", "K", "none", "99999999999999999999K", "9223372036854775807K"]), 0
            elif k == 3: l = rng.choice(["-", "0", "x", "-1"])
            elif k == 4: t = rng.choice(["Instruction", "Trace"])
            ents.append((c, i, t, l, z, n)); i += 1
    rng.shuffle(ents)
    return ents


def memuse(rng, mode, kind="read"):
    """one collector at a time, its memory block looked at after every call"""
    s = Scn("memuse %s %s" % (mode, kind)); s.quiet("memlog 1")
    fl = MODES.get(mode, 0)
    if mode == "sysfips": s.fips(1)
    k = rng.randrange(3)
    if k == 0: s.sysconf(rng.choice([16384, 32768, 49152, 65536, 131072, 1 << 19]), -1, -1)
    elif k == 1: s.sysconf(32768, rng.choice([262144, 1 << 20]), rng.choice([-1, 1 << 21])); fl |= rng.choice([0, CACHEALL])
    else: fl |= ms(rng.choice([7, 8, 9, 10, 11, 12, 13]))
    fl |= rng.choice([0, DISINT])
    osr = rng.choice([1, 3, 3, 4])
    if rng.random() < .7: s.init()
    s.alloc(0, osr, fl)
    if kind == "read":
        for _ in range(rng.randint(1, 4)): s.read(0, rng.choice([1, 32, 40, 96]))
        s.clk(segC(stucky(rng, 300, .5, 8))); s.read(0, 32)
    else:
        s.clk([("s", 17 * 100, 0)]); s.safe(0, 40); s.clk([]); s.safe(0, 40)
    s.free(0); s.alloc(0, 3, MODES.get(rng.choice(["plain", "fips", "ntg1"]), 0)).read(0, 20)
    return s


def caches(rng, drop=0):
    s = Scn("caches"); s.quiet("memlog 1")
    if rng.random() < .5: s.sysconf(rng.choice([-1, 0, 8192, 32768, 200000]), rng.choice([-1, 0, 262144]), rng.choice([-1, 0, 2 << 20]))
    e = cachetree(rng)
    if rng.random() < .25: e = [x for x in e if x[3] != 1]
    # indices stay contiguous for each processor
    by = {}
    e = [(c, by.setdefault(c, []).append(0) or len(by[c]) - 1, *r) for c, _, *r in e]
    s.caches(e)
    if rng.random() < .5: s.init()
    for _ in range(rng.randint(1, 3)):
        s.alloc(0, 3, rng.choice([0, CACHEALL, CACHEALL | DISINT, FIPS, CACHEALL | FIPS, ms(3) | CACHEALL, hl(2)]))
        if rng.random() < .3: s.read(0, 4)
        s.free(0)
    return s
