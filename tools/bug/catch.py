"""catch.py [ID...]: applies each planted change to /repo, runs its property's quick check, undoes it."""
import os, subprocess, sys, json, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for b in ids:
    d = V + "/seeded/" + b; p = json.load(open(d + "/meta.json"))["property"]
    if p not in man: print(b, p, "not claimed"); continue
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout.strip()
    r = subprocess.run("git -C /repo apply %s/patch.diff" % d, shell=True)
    if r.returncode: print(b, p, "DOES NOT APPLY"); continue
    t = time.time()
    try: r = subprocess.run(man[p]["quick_cmd"], shell=True, cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally: subprocess.run("git -C /repo checkout -- .", shell=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(b, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", "%.0fs" % (time.time() - t), v[:1], flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-1500:])
