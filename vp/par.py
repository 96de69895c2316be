"""Concurrent scenarios: controlled schedules of the real code against JentPar.tla."""
import json, os, random, collections
from .core import *
from .gen import *


class PScn:
    def __init__(self, note, pro, thr, epi, sched=""):
        self.note, self.pro, self.thr, self.epi, self.sched = note, pro, thr, epi, sched

    def with_sched(self, s): return PScn(self.note, self.pro, self.thr, self.epi, s)

    def script(self, sid):
        L = ["S %d" % sid] + [i[0] for i in self.pro.items]
        for t, s in enumerate(self.thr, 1): L += ["T %d %s" % (t, i[0]) for i in s.items]
        L += ["go " + self.sched] + [i[0] for i in self.epi.items]
        return "\n".join(L) + "\nE\n"

    def dump(self):
        return json.dumps({"note": self.note, "pro": self.pro.items, "thr": [t.items for t in self.thr],
                           "epi": self.epi.items, "sched": self.sched})

    @staticmethod
    def load(j):
        d = json.loads(j)
        def mk(it):
            s = Scn(); s.items = [tuple(i) for i in it]; return s
        return PScn(d["note"], mk(d["pro"]), [mk(t) for t in d["thr"]], mk(d["epi"]), d["sched"])


def pconvert(p, recs):
    """history of a concurrent scenario -> events; None: nothing to learn"""
    ev = [{"op": "env", "set": {}, "t": 0}]
    its = {0: iter(p.pro.items + [("go", "go", None)] + p.epi.items)}
    for t, s in enumerate(p.thr, 1): its[t] = iter(s.items)
    def quiet(t):
        """events of thread t before its next recorded one; returns the item of the record"""
        for line, kind, pl in its[t]:
            if kind == "env": ev.append({"op": "env", "set": pl, "t": t})
            elif kind == "ev" and t == 0: ev.append({**pl, "t": 0})
            elif kind == "quiet": pass
            else: return line, kind, pl
        return None
    for r in recs:
        r = dict(r); r.pop("s", None)
        if r["op"] == "end": quiet(0); break
        if r["op"] in ("crash", "hang"): ev.append({"op": "crash", "what": r, "t": 0}); break
        if r["op"] == "sw":
            if r["from"] == 0:
                quiet(0)
            ev.append({**r, "t": -1}); continue
        if r["op"] == "hb":
            ev.append({**r, "t": 0}); continue
        t = r.get("t", 0)
        it = quiet(t)
        if r.get("nokat"): return None
        if it is None: ev.append({"op": "crash", "what": r, "t": t}); break
        if r["op"] == "clk": ev.append({**it[2], "t": t}); continue
        r.pop("st", None); r.pop("str", None)
        if r["op"] == "alloc":
            r["xuuid"] = expected_uuid(r["rnd"]); r.setdefault("uuid", "")
        r.pop("rnd", None); r["t"] = t
        ev.append(r)
    return {"ev": ev}


CL = {"ret", "nrd", "cb", "race", "overlap", "latch"}


def fast(rng, g=1, n=1300):
    """a good clock whose readings have the common divisor g: cheap to follow"""
    a = rng.choice([60013, 50021, 70001]); b = rng.choice([7, 11, 13])
    return [("q", 17 * n, a * g, b * g, 30011)] if g < 30 else good_start(rng, g)


def probe(rng, s, slot, g):
    """clock and read that show which divisor the collector of the slot works with"""
    s.clk(segC([g * 700 + rng.randint(0, g - 1) if rng.random() < .6 else rng.randint(1000, 9000) for _ in range(500)]))
    return s.read(slot, 1)


def base(rng, kind):
    pro, epi = Scn(), Scn(); T = [Scn(), Scn()]
    g = [rng.choice([4, 6]), rng.choice([9, 10])]
    fl = rng.choice([DISINT, DISINT, FIPS | DISINT, NTG1])
    if kind == "init2":           # two startup tests establish different divisors
        for t in (0, 1): T[t].clk(fast(rng, g[t])).initex(3, fl)
        T[1].clk([]).alloc(1, 3, DISINT); probe(rng, T[1], 1, 90)
        epi.clk([]).alloc(0, 3, DISINT); probe(rng, epi, 0, 90)
    elif kind == "init-alloc":    # an allocation while another thread tests the clock
        T[0].clk(fast(rng, g[0])).initex(3, fl)
        T[1].clk(fast(rng, g[1], 2000)).alloc(1, 3, DISINT)
        probe(rng, T[1], 1, 90)
    elif kind == "alloc2":
        for t in (0, 1): T[t].clk(fast(rng, g[t], 2000)).alloc(t, 3, DISINT)
        epi.clk([]); probe(rng, epi, 0, 90); probe(rng, epi, 1, 90)
    elif kind == "fail-alloc":    # the tests fail in one thread while another one allocates
        T[0].clk([("s", 3000, 0)]).initex(3, fl)
        T[1].clk([("s", 34, 0)] if rng.random() < .5 else fast(rng, g[1], 2000)).alloc(1, 3, DISINT).read(1, 1)
        epi.clk([]).alloc(2, 3, DISINT)
    elif kind == "good-fail":     # after an earlier success
        pro.init()
        T[0].clk([("s", 3000, 0)]).initex(3, fl)
        T[1].alloc(1, 3, DISINT).read(1, 1)
        epi.alloc(2, 3, DISINT)
    elif kind == "late-fail":     # the test of one thread fails at its end (stuck / no variation)
        T[0].clk(segC([4 * (rng.randint(2000, 9000) if i < 60 else 700) for i in range(1130)])).initex(3, DISINT)
        T[1].clk(fast(rng, g[1], 2000)).alloc(1, 3, DISINT).read(1, 1)
        epi.clk([]).alloc(2, 3, DISINT)
    elif kind == "mode2":         # different modes at once
        T[0].clk(fast(rng, g[0], 2000)).alloc(0, 3, NTG1).read(0, 1)
        T[1].clk(fast(rng, g[1], 2000)).alloc(1, 3, FIPS | DISINT).read(1, 1)
    elif kind == "forced":        # one thread forces the internal timer
        pro.ncpu(2).switch(0)
        T[0].clk(fast(rng, 1, 1300)).initex(3, FORCEINT)
        T[1].clk(fast(rng, g[1], 2500)).alloc(1, 3, rng.choice([DISINT, 0, NTG1])).read(1, 1)
        epi.clk([]).alloc(2, 3, DISINT).alloc(3, 3, 0).read(3, 1)
    elif kind == "forced2":
        pro.ncpu(2).switch(0)
        if rng.random() < .5: pro.init()
        for t in (0, 1): T[t].clk(fast(rng, 1, 3500)).alloc(t, 3, FORCEINT).read(t, 1)
    elif kind == "forced3":       # the internal timer is forced first by one of two allocations
        pro.ncpu(2).switch(0).init()
        for t in (0, 1): T[t].clk(fast(rng, 1, 1500)).alloc(t, 3, FORCEINT)
    elif kind == "recover":       # a recovery while another thread starts
        pro.init().alloc(0, 3, FIPS)
        T[0].clk([("s", 1530, 0)]).safe(0, 8)
        T[1].clk(fast(rng, g[1], 2000)).initex(3, DISINT).alloc(1, 3, DISINT)
        epi.read(0, 1)
    elif kind == "three":
        T.append(Scn())
        for t in (0, 1, 2): T[t].clk(fast(rng, (4, 9, 25)[t])).initex(3, DISINT)
        epi.clk([]).alloc(0, 3, DISINT); probe(rng, epi, 0, 900)
    elif kind == "mark":          # a self test of another thread marks the collector
        m = rng.choice([0, FIPS, NTG1])
        pro.setcb(1).init().alloc(0, 3, m)
        w = rng.randrange(3)
        T[0].clk(segC([rng.randint(100, 9000) if rng.random() < .5 else 700 for _ in range(800)])).read(0, 40).read(0, 1)
        T[1].selftest(0)
        pro.kat(w)
        epi.kat(w).read(0, 1).safe(0, 1)
    return PScn(kind, pro, T, epi)


KINDS19 = {"init2": (1, 18), "init-alloc": (1, 6), "alloc2": (1, 4), "fail-alloc": (1, 8), "good-fail": (1, 10),
           "late-fail": (1, 5), "mode2": (1, 1), "forced": (1, 8), "forced2": (1, 1), "forced3": (1, 3), "recover": (1, 4), "three": (1, 1)}
KINDS18 = {"mark": (3, 12)}


def trace_key(tr):
    return json.dumps([{k: v for k, v in e.items() if k in ("op", "t", "from", "to", "nr", "ret", "nrd", "cb", "ovl")}
                       for e in tr["ev"]], sort_keys=True)


def run_sched(jh, plan, work, cl, rep):
    """-> rejected [(PScn, diagnosis, trace)], records"""
    recs = run_harness(jh, plan, work, "p")
    seen = set(); todo = []; logs = {}
    for p, r in zip(plan, recs):
        tr = pconvert(p, r)
        if tr is None: continue
        rep["schedules"] += 1
        for e in tr["ev"]:
            if e["op"] == "hb":
                log = e.pop("log"); logs.setdefault(json.dumps([e["n"], log]), (p, tr))
        k = (id(p.pro), trace_key(tr))
        if k in seen: continue
        seen.add(k); todo.append((p, tr))
    rep["distinct"] += len(todo); rep["logs"] += len(logs)
    bad = []
    lk = list(logs)
    acc, st, diag = validate([{"ev": [dict(zip(("n", "log"), json.loads(k)))]} for k in lk], cl, work, "pl", cfg="HBTrace.cfg", spec="HBTrace.tla")
    bad += [(*logs[lk[i]][:1], diag.get(i, ["data race"]), logs[lk[i]][1]) for i in range(len(lk)) if i not in acc]
    acc, st, diag = validate([t for _, t in todo], cl, work, "pv", cfg="JentPar.cfg", spec="JentPar.tla")
    rep["states"] += st[1]; rep["transitions"] += st[0]; rep["traces"] += len(todo) + len(lk)
    bad += [(todo[i][0], diag.get(i, []), todo[i][1]) for i in range(len(todo)) if i not in acc]
    return bad, recs


def plan_for(rng, b, counts, n):
    """schedules with one, two or more forced switches at the shared accesses"""
    T = len(b.thr); out = []
    one = [(t, k) for t in range(1, T + 1) for k in range(0, counts[t - 1] + 1)]
    for t, k in one:
        o = [x for x in range(1, T + 1) if x != t]; rng.shuffle(o)
        out.append(" ".join(["%d:%d" % (t, k)] * (k > 0) + ["%d:99999" % x for x in o]))
    two = []
    for t in range(1, T + 1):
        for u in range(1, T + 1):
            if u == t: continue
            for k in range(1, counts[t - 1] + 1):
                for j in range(1, counts[u - 1] + 1):
                    two.append("%d:%d %d:%d %d:99999" % (t, k, u, j, t))
    rng.shuffle(two)
    more = []
    for _ in range(n // 3):
        s = []; t = rng.randint(1, T)
        for _ in range(rng.randint(3, 8)):
            s.append("%d:%d" % (t, rng.choice([1, 1, 1, 2, 3, 5, 8]))); t = rng.choice([x for x in range(1, T + 1) if x != t])
        more.append(" ".join(s))
    rng.shuffle(out)
    out.sort(key=lambda s: not s.startswith("1:"))
    out = out[:n]
    out += two[:max(n - len(out), n // 2)] + more
    return [b.with_sched(s) for s in out]


def par_check(kinds):
    """kinds: kind -> (scenarios, size of the schedule sample)"""
    def go(pid, tier, seed, work, rep):
        from .check import replay_path
        th = tier == "thorough"
        rng = random.Random("par/%s/%s/%d" % (pid, tier, seed))
        jh = build_harness("hp-" + pid, ["par"])
        rp = collections.Counter()
        viol = []
        try:
            bases = [base(rng, k) for k in kinds for _ in range(kinds[k][0] * (4 if th else 1))]
            r0 = run_harness(jh, [b.with_sched("") for b in bases], work, "p0")
            plan = []
            for b, r in zip(bases, r0):
                h = [x for x in r if x["op"] == "hb"]
                cnt = h[0]["acc"] if h else [16, 16, 16]
                plan += plan_for(rng, b, [min(c, 60) for c in cnt], kinds[b.note][1] * (5 if th else 1))
            B = 2000
            for i in range(0, len(plan), B):
                bad, recs = run_sched(jh, plan[i:i + B], work, CL, rp)
                if bad:
                    c2 = collections.Counter()
                    bad2, _ = run_sched(jh, [p for p, _, _ in bad[:6]], work, CL, c2)
                    for p, d, tr in bad2[:3]:
                        f = replay_path(pid, "par%d.scn" % len(viol))
                        with open(f, "w") as fh:
                            fh.write("# property %s: concurrent scenario %s\n# replay: cd /verif && python3 -m vp.check --replay %s %s\n" % (pid, p.note, f, pid))
                            for x in d: fh.write("# mismatch (event, observation, specification, code): %s\n" % x)
                            fh.write(p.script(1)); fh.write("#PAR %s\n" % p.dump())
                        viol.append((f, (p.note, p.sched, d[:2])))
                    if viol: break
        finally:
            sh(["rm", "-rf", os.path.join(BUILD, "hp-" + pid)])
        rep["concurrent"] = {"kinds": list(kinds), "schedules_executed": rp["schedules"], "distinct_histories": rp["distinct"], "distinct_access_logs": rp["logs"]}
        for k in ("states", "transitions", "traces"): rep[k] += rp[k]
        rep["samples"] += ["schedule of %s: %s" % (p.note, p.sched) for p in plan[:2]]
        return viol
    return go


def replay_par(line):
    p = PScn.load(line)
    work = os.path.join(BUILD, "w-replay"); sh(["rm", "-rf", work]); os.makedirs(work)
    jh = build_harness("hp-replay", ["par"])
    bad, recs = run_sched(jh, [p], work, CL, collections.Counter())
    for e in recs[0]: print(json.dumps({k: v for k, v in e.items() if k not in ("st", "rnd")})[:400])
    for _, d, _ in bad:
        for x in d: print("MISMATCH", x)
    print("rejected" if bad else "accepted")
    return 1 if bad else 0
