"""The specification itself, explored by TLC with small constants (spec/JentMC.tla):
every order of a few calls, every clock, every fault.  The properties are checked on all
reachable states; that the code behaves as specified is decided by the traces."""
import hashlib, json, math, os, random, re
from .core import VERIF, Infra, tlc, tlc_stats, limbs, NCPU

ALL = ["{}", '{"FIPS"}', '{"NTG1"}']
GOOD = "{0, 1, 2, 3, 5, 7}"


def C(inv="", prop="", ops="alloc read safe", flags=('{"FIPS"}',), iflags=("{}",), lens=(2,), calls=3, rates=(1,),
      envs="E_Plain", deltas=GOOD, slots="MSlots", view="View", **kw):
    d = {"SlotIds": "<- " + slots, "Deltas": "= " + deltas, "MaxCalls": "= %d" % calls,
         "Ops": "= {%s}" % ", ".join('"%s"' % o for o in ops.split()),
         "AllocFlags": "= {%s}" % ", ".join(flags), "InitFlags": "= {%s}" % ", ".join(iflags),
         "Lens": "= {%s}" % ", ".join(map(str, lens)), "Rates": "= {%s}" % ", ".join(map(str, rates)),
         "Envs": "<- " + envs}
    d.update({k: "= " + str(v) for k, v in kw.items()})
    return d, inv.split(), prop.split(), view


def cfg(conf, path):
    d, inv, prop, view = conf
    with open(os.path.join(VERIF, "spec/JentMC.base.cfg")) as f:
        base = [l for l in f if l.split()[:1] == [] or l.split()[0] not in d]
    with open(path, "w") as f:
        f.writelines(base)
        for k, v in d.items(): f.write("  %s %s\n" % (k, v))
        if inv: f.write("INVARIANTS " + " ".join(inv) + "\n")
        if prop: f.write("PROPERTIES " + " ".join(prop) + "\n")
        f.write("VIEW %s\n" % view)


# property -> (quick, thorough)
CONF = {
 "C01": (C("NoOutputPastFailure", "FailuresStick", lens=(0, 2)),
         C("NoOutputPastFailure", "FailuresStick", ops="alloc read safe selftest kat setcb", flags=ALL, lens=(0, 1, 2), calls=4)),
 "C02": (C("ReadContract", flags=("{}", '{"FIPS"}'), lens=(0, 1, 2), calls=2),
         C("ReadContract", ops="alloc read safe fault", flags=ALL, lens=(0, 1, 2, 3), calls=3)),
 "C04": (C("Callbacks", ops="alloc read safe setcb", calls=3),
         C("Callbacks", ops="alloc read safe setcb", flags=ALL, calls=4)),
 "C05": (C("Recovery", ops="alloc safe fault at", deltas="{1, 2, 3, 5}", lens=(1,), calls=3),
         C("Recovery", ops="alloc safe fault read at", flags=ALL, calls=4, MaxOsr=3)),
 "C06": (C("Recovery", "Progress", ops="alloc safe", MaxOsr=3, deltas="{0, 1, 2, 5}"),
         C("Recovery", "Progress", ops="alloc safe read", flags=ALL, calls=3, MaxOsr=4)),
 "C07": (C("Gate AfterFailedInit", ops="alloc init initex kat fault", flags=ALL + ['{"FORCEINT"}'], iflags=ALL + ['{"FORCEINT"}'],
           calls=2, deltas="{0, 1, 2, 5}"),
         C("Gate AfterFailedInit", ops="alloc init initex kat fault tfault free", flags=ALL + ['{"FORCEINT"}', '{"DISINT"}'],
           iflags=ALL + ['{"FORCEINT"}', '{"DISINT"}'], calls=3, envs="E_All", deltas="{0, 1, 2, 5}")),
 "C09": (C("Config", ops="alloc", flags=ALL + ['{"DISMEM"}', '{"FORCEINT"}', '{"DISINT"}', '{"FIPS", "DISMEM"}'], calls=2, rates=(0, 1, 2, 3),
           deltas="{1, 2, 5}", envs="E_All"),
         C("Config", ops="alloc init", flags=ALL + ['{"DISMEM"}', '{"FORCEINT"}', '{"DISINT"}', '{"FIPS", "DISMEM"}', '{"FORCEINT", "DISINT"}',
           '{"NTG1", "FORCEINT"}', '{"FIPS", "FORCEINT"}'], calls=3, rates=(0, 1, 2, 3, 4), envs="E_All", slots="MSlots2", MaxOsr=3)),
 "C10": (C("Secure", ops="alloc safe fault", envs="E_All", flags=ALL, calls=2, deltas="{1, 2, 5}"),
         C("Secure", ops="alloc safe fault initex", envs="E_All", flags=ALL + ['{"FORCEINT", "FIPS"}'], iflags=ALL, calls=3)),
 "C11": (C("NoLeak Held", ops="alloc read free fault tfault", flags=ALL + ['{"FORCEINT"}'], calls=3, deltas="{1, 2, 5}"),
         C("NoLeak Held", ops="alloc read safe free fault tfault", flags=ALL + ['{"FORCEINT"}', '{"FORCEINT", "FIPS"}'], calls=4, slots="MSlots2", deltas="{1, 2, 5}")),
 "C12": (C("NotForced Divisors", "Latches", ops="init initex alloc setcb", flags=ALL + ['{"FORCEINT"}', '{"DISINT"}'], iflags=ALL + ['{"FORCEINT"}', '{"DISINT"}'],
           calls=2, deltas="{0, 6, 30, 42}", Wrap=60),
         C("NotForced Divisors", "Latches", ops="init initex alloc setcb read fault", flags=ALL + ['{"FORCEINT"}', '{"DISINT"}'],
           iflags=ALL + ['{"FORCEINT"}', '{"DISINT"}'], calls=3, deltas="{0, 2, 6, 30, 42, 59}", Wrap=60)),
 "C13": (C("Amount Counted", ops="alloc read", flags=("{}", '{"FIPS"}'), deltas="{0, 1, 5}", calls=2, view="ViewMeasCut", lens=(1, 2)),
         C("Amount Counted", ops="alloc read", flags=ALL, deltas="{0, 1, 2, 5}", calls=3, view="ViewMeasCut", lens=(1, 2, 3), MaxOsr=3, rates=(1, 3))),
 "C17": (C("Threads", "CountingWhenRead", ops="alloc read safe tfault", flags=('{"FORCEINT"}', '{"FORCEINT", "FIPS"}'), calls=2, deltas="{1, 2, 5}"),
         C("Threads", "CountingWhenRead", ops="alloc read safe tfault init free", flags=('{}', '{"FORCEINT"}', '{"FORCEINT", "FIPS"}'), calls=4)),
 "C18": (C("SelfTestMark", "Marks", ops="alloc read safe selftest kat", slots="MSlots2", calls=4, deltas="{1, 2, 5}", lens=(1,)),
         C("SelfTestMark", "Marks", ops="alloc read safe selftest kat", flags=ALL, slots="MSlots2", calls=5, deltas="{1, 2, 5}", lens=(0, 1))),
}


def mc(pid, tier, seed, work, rep):
    conf = CONF[pid][1 if tier == "thorough" else 0]
    p = os.path.join(work, "mc.cfg"); cfg(conf, p)
    limit = int(os.environ.get("MC_LIMIT", "1500" if tier == "thorough" else "300"))
    # no Java overrides here: the arithmetic of the small clock replaces U64
    rc, out = tlc("JentMC.tla", p, work, "mc", workers=NCPU, mem="16g" if tier == "thorough" else "6g", timeout=limit + 60, pure=True,
                  extra=("-fpmem", "0.4"), stop=limit)
    gen, dist = tlc_stats(out)
    done = "Model checking completed" in out
    rep["exploration"] = {"module": "JentMC", "constants": {k: v for k, v in conf[0].items()}, "invariants": conf[1], "action_properties": conf[2],
                          "distinct_states": dist, "states_generated": gen, "complete": done}
    rep["states"] += dist; rep["transitions"] += gen
    if rc in (12, 13):
        return spec_violation(pid, "mc", out, "the specification does not have the property: " +
                              " ".join(re.findall(r"(?:Invariant|property) \S+", out)[:2]))
    if rc not in (0, None):
        raise Infra("TLC failed on JentMC (rc %s): %s" % (rc, out[-2000:]))
    return []


def spec_violation(pid, name, out, what):
    d = os.path.join(VERIF, "build", "replay"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.txt" % (pid, name))
    with open(f, "w") as fh: fh.write(out)
    return [(f, what)]


# quick, thorough: (lag window, history, deltas, length, block of the test with memory)
HEALTH = ([(8, 2, "{0, 1, 2}", 10, 9), (6, 3, "{0, 1, 2}", 10, 6), (9, 3, "{1, 2}", 14, 9)],
          [(8, 2, "{0, 1, 2}", 13, 9), (6, 3, "{0, 1, 2}", 13, 6), (7, 3, "{0, 1, 2, 3}", 10, 6), (9, 3, "{1, 2}", 18, 9), (12, 4, "{1, 3}", 18, 12)])


def health(pid, tier, seed, work, rep):
    """step-by-step health tests = their definitions, for every short sequence of deltas"""
    rep["health_definitions"] = []
    for j, (lw, lh, ds, n, mw) in enumerate(HEALTH[tier == "thorough"]):
        p = os.path.join(work, "health%d.cfg" % j)
        with open(p, "w") as f:
            f.write(open(os.path.join(VERIF, "spec/HealthMC.cfg")).read() +
                    "  LagWindow = %d\n  LagHist = %d\n  Deltas = %s\n  MaxLen = %d\n  MemWin = %d\n" % (lw, lh, ds, n, mw))
        rc, out = tlc("HealthMC.tla", p, work, "health%d" % j, workers=NCPU, mem="12g" if tier == "thorough" else "6g", pure=True)
        gen, dist = tlc_stats(out)
        rep["health_definitions"].append({"lag_window": lw, "history": lh, "deltas": ds, "length": n, "block": mw, "sequences": dist})
        rep["states"] += dist; rep["transitions"] += gen
        if rc == 12: return spec_violation(pid, "health", out, "the specification's health tests are not the defined ones")
        if rc: raise Infra("TLC failed on HealthMC (rc %s): %s" % (rc, out[-2000:]))
    return []


def basics_cases(rng, hashes):
    m64 = (1 << 64) - 1
    corner = [0, 1, 2, 0xffff, 0x10000, 0xffffffff, 1 << 32, (1 << 63) - 1, 1 << 63, m64 - 1, m64, 0x7fffffff, 1000003]
    val = corner + [rng.getrandbits(rng.choice((8, 17, 33, 49, 64))) for _ in range(10)]
    out = []
    for a in val:
        for b in rng.sample(val, 8):
            e = {"a": limbs(a), "b": limbs(b), "k": 0, "m": [], "at": 0}
            out += [{"op": "add", "r": limbs(a + b), **e}, {"op": "sub", "r": limbs(a - b), **e}, {"op": "lt", "r": a < b, **e},
                    {"op": "gcd", "r": limbs(math.gcd(a, b)), **e}, {"op": "abs", "r": limbs(abs(a - b)), **e}]
            if b: out.append({"op": "div", "r": limbs(a // b), **e})
        k = rng.randrange(1, 32768)
        out.append({"op": "mul", "a": limbs(a), "b": [0] * 4, "k": k, "m": [], "at": 0, "r": limbs(a * k)})
    for n in hashes:
        m = [rng.randrange(256) for _ in range(n)]
        e = {"a": [0] * 4, "b": [0] * 4, "m": m, "at": rng.randrange(n + 1)}
        out += [{"op": "sha3", "k": 0, "r": list(hashlib.sha3_256(bytes(m)).digest()), **e}]
        for op in ("shake", "split"):
            k = rng.randrange(1, 137)
            out.append({"op": op, "k": k, "r": list(hashlib.shake_256(bytes(m)).digest(k)), **e})
    return out


def basics(pid, tier, seed, work, rep):
    """arithmetic and hash functions of the specification are the standard ones"""
    rng = random.Random("basics/%d" % seed)
    ln = [0, 1, 31, 65, 135, 136, 137] + ([271, 272, 273, 500] if tier == "thorough" else [])
    for pure in (False, True):
        cs = basics_cases(rng, ln if not pure or tier == "thorough" else [0, 135, 136])
        f = os.path.join(work, "basics.json"); json.dump(cs, open(f, "w"))
        rc, out = tlc("Basics.tla", "Basics.cfg", work, "basics", {"BASICS": f}, mem="3g", pure=pure)
        rep["basics" + ("_pure" if pure else "_java")] = len(cs)
        rep["states"] += len(cs)
        if rc == 12: return spec_violation(pid, "basics", out, "arithmetic or hash functions of the specification are wrong")
        if rc: raise Infra("TLC failed on Basics (rc %s): %s" % (rc, out[-2000:]))
    return []
