"""Entry point of all checks: python3 -m vp.check ID [quick|thorough]
       python3 -m vp.check --replay FILE ID"""
import json, os, random, shutil, sys, time, collections
from .core import *
from . import props, models


def evidence(pid, tier, seed, level, cov, wall, extra=None):
    d = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence")); os.makedirs(d, exist_ok=True)
    e = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(wall, 1)}
    e.update(extra or {})
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def replay_path(pid, name):
    d = os.path.join(BUILD, "replay"); os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s" % (pid, name))


def run_traces(pid, scns, clauses, cfg, work, jh):
    """-> dict(rejected=[(index, diagnosis)], stats)"""
    recs = run_harness(jh, scns, work, "r")
    tr = [convert(s, r) for s, r in zip(scns, recs)]
    idx = [i for i in range(len(tr)) if tr[i] is not None]
    acc, st, diag = validate([tr[i] for i in idx], clauses, work, "v", cfg=cfg)
    bad = [(idx[j], diag.get(j, [])) for j in range(len(idx)) if j not in acc]
    return bad, st, len(idx), recs, tr


def trace_check(pid, tier, seed, work, jh, rep, part_no=0):
    gen, cl = ([props.TRACE[pid]] + props.MORE.get(pid, []))[part_no]
    clauses = set(cl.split())
    cfg = "JentTraceOut.cfg" if clauses & {"out", "residue"} else "JentTrace.cfg"
    rng = random.Random("%s/%s/%d" % (pid, tier, seed) + ("/%d" % part_no if part_no else ""))
    scns = gen(rng, tier == "thorough")
    nbatch = 400
    tot = collections.Counter(); outcomes = collections.Counter(); viol = []
    for b in range(0, len(scns), nbatch):
        part = scns[b:b + nbatch]
        bad, st, n, recs, tr = run_traces(pid, part, clauses, cfg, work, jh)
        tot["scenarios"] += len(part); tot["validated"] += n; tot["states"] += st[0]; tot["distinct"] += st[1]
        for r in recs:
            for x in r:
                if x["op"] in ("init", "initex", "alloc", "read", "safe", "selftest", "setcb", "setcpu", "switch"):
                    v = x.get("ret", 0)
                    outcomes["%s:%s" % (x["op"], v if x["op"] not in ("read", "safe") or v <= 0 else "bytes")] += 1
                    tot["readings"] += x.get("nrd", 0)
                tot["calls"] += 1
        if bad:
            # believed only if a second, separate run of the same scenario is rejected too
            again = [part[i] for i, _ in bad[:8]]
            bad2, *_ = run_traces(pid, again, clauses, cfg, work, jh)
            for j, d in bad2:
                i, d0 = bad[j]
                f = replay_path(pid, "%s%d.scn" % ("%d-" % part_no if part_no else "", b + i))
                with open(f, "w") as fh:
                    fh.write("# property %s: %s\n# replay: cd /verif && python3 -m vp.check --replay %s %s\n" % (pid, part[i].note, f, pid))
                    for x in (d0 or d): fh.write("# mismatch (event, observation, specification, code): %s\n" % x)
                    ev = tr[i]["ev"]
                    if ev and ev[-1]["op"] in ("crash", "badjson"): fh.write("# %s\n" % json.dumps(ev[-1])[:600])
                    fh.write(part[i].script(1))
                    fh.write("#CLAUSES %s\n" % " ".join(sorted(clauses)))
                    fh.write("#ITEMS %s\n" % json.dumps(part[i].items))
                viol.append((f, (part[i].note, (d0 or d)[:2])))
            if viol: break
    rep["trace%d" % part_no if part_no else "trace"] = {**tot, "outcomes": dict(outcomes), "kinds": dict(collections.Counter((s.note or "").split(" ")[0] for s in scns)),
                    "observations_compared": sorted(clauses)}
    rep["states"] += tot["distinct"]; rep["transitions"] += tot["states"]; rep["traces"] += tot["validated"]
    rep["samples"] += ["%s: %s" % (s.note, " ; ".join(i[0][:60] for i in s.items[:8])) for s in scns[:1] + scns[len(scns) // 2:len(scns) // 2 + 1] + scns[-1:]]
    return viol


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1], argv[2])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(BUILD, "w-" + pid)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rep = {"states": 0, "transitions": 0, "traces": 0, "samples": []}
    viol = []
    try:
        build_java()
        for part in models.PARTS.get(pid, []):
            if os.environ.get("VP_SKIP_MC") and part in models.CODELESS: continue   # for mutation runs
            viol += part(pid, tier, seed, work, rep)
            if viol: break
        if not viol and pid in props.TRACE:
            jh = build_harness("h-" + pid)
            for k in range(1 + len(props.MORE.get(pid, []))):
                if not viol: viol += trace_check(pid, tier, seed, work, jh, rep, k)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(os.path.join(BUILD, "h-" + pid), ignore_errors=True)
        shutil.rmtree(os.path.join(BUILD, "k-" + pid), ignore_errors=True)
    cov = {"states": rep.pop("states"), "transitions": rep.pop("transitions"),
           "traces_validated_against_impl": rep.pop("traces"), "samples": rep.pop("samples")[:8]}
    cov.update(rep)
    evidence(pid, tier, seed, "model_checking", cov, time.time() - t0)
    for f, why in viol[:5]:
        print("  ", why)
        print("VIOLATION property=%s replay=%s" % (pid, f))
    if viol: return 1
    print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (pid, tier, cov["states"], cov["traces_validated_against_impl"], time.time() - t0))
    return 0


def replay(path, pid):
    items = cl = None
    for l in open(path):
        if l.startswith("#ITEMS "): items = json.loads(l[7:])
        if l.startswith("#CLAUSES "): cl = set(l.split()[1:])
    if items is None:
        return models.replay(path, pid)
    s = Scn("replay"); s.items = [tuple(i) for i in items]
    work = os.path.join(BUILD, "w-replay"); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    jh = build_harness("h-replay")
    bad, st, n, recs, tr = run_traces(pid, [s], cl, "JentTraceOut.cfg" if cl & {"out", "residue"} else "JentTrace.cfg", work, jh)
    for e in tr[0]["ev"]:
        print(json.dumps({k: v for k, v in e.items() if k not in ("st", "segs", "out", "rnd")})[:300])
    for i, d in bad:
        for x in d: print("MISMATCH", x)
    print("rejected" if bad else "accepted")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except Infra as e:
        print("ERROR: %s" % e)
        sys.exit(2)
