"""Mutation battery: mut.py [-j N] [NAME...]
Each mutant (tools/mut/list.py) is applied to a copy of /repo under /tmp; the quick check of its
property (the part that looks at the code) is run on the copy.  Never used by the checks."""
import os, shutil, subprocess, sys, tempfile, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from list import M
a = sys.argv[1:]; j = 2; tier = "quick"; seed = "1"
while a and a[0][:1] == "-":
    if a[0] == "-j": j = int(a[1])
    if a[0] == "-t": tier = a[1]
    if a[0] == "-s": seed = a[1]
    a = a[2:]
ms = [m for m in M if not a or m[0] in a or any(x.endswith("*") and m[0].startswith(x[:-1]) for x in a)]
q = queue.Queue(); [q.put(m) for m in ms]
lock = threading.Lock(); TOP = tempfile.mkdtemp(prefix="mut")

def work(k):
    base = TOP + "/%d" % k; os.makedirs(base, exist_ok=True)
    while True:
        try: name, pids, edits = q.get_nowait()
        except queue.Empty: return
        r = base + "/repo"; shutil.rmtree(r, ignore_errors=True)
        subprocess.run("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (r, r), shell=True, check=True)
        ok = True
        for f, o, n in edits:
            p = r + "/" + f; s = open(p).read()
            if o not in s:
                with lock: print(name, "EDIT DOES NOT APPLY", f, repr(o)[:80], flush=True)
                ok = False; break
            open(p, "w").write(s.replace(o, n, 1))
        for pid in pids.split() if ok else ():
            t = time.time()
            e = dict(os.environ, JENT_REPO=r, VP_BUILD=base + "/build", VP_EVIDENCE=base + "/ev", VP_SKIP_MC="1", VERIF_SEED=seed, VERIF_TIER=tier)
            os.makedirs(base + "/build", exist_ok=True)
            x = subprocess.run(["python3", "-m", "vp.check", pid], cwd=V, env=e, capture_output=True, text=True)
            res = "caught" if x.returncode == 1 and "VIOLATION" in x.stdout else "MISSED" if x.returncode == 0 else "ERROR rc=%d %s" % (x.returncode, (x.stdout + x.stderr)[-300:])
            with lock: print("%-14s %s %s %.0fs %s" % (name, pid, res, time.time() - t, x.stdout.strip().splitlines()[0][:150] if res == "caught" else ""), flush=True)

ts = [threading.Thread(target=work, args=(k,)) for k in range(j)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(TOP, ignore_errors=True)
