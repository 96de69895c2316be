"""mkbug.py ID...: builds /verif/seeded/<id>/ from bugs/<id>.py and confirms it in a scratch copy.
A bug file defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source), optional LINK."""
import os, subprocess, sys, shutil, json
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for bid in sys.argv[1:]:
    g = {}; exec(open("%s/bugs/%s.py" % (H, bid)).read(), g)
    d = "/tmp/bugw/" + bid; shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/bugw", exist_ok=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s" % d)
    out = "%s/seeded/%s" % (V, bid); os.makedirs(out, exist_ok=True)
    open(out + "/demo.c", "w").write(g["DEMO"]); shutil.copy(H + "/jd.h", out + "/jd.h")
    open(out + "/demo.sh", "w").write(open(H + "/demo.sh").read().replace("EXTRA", g.get("LINK", ""))); os.chmod(out + "/demo.sh", 0o755)
    r = sh("bash %s/demo.sh" % out, cwd=d); clean = r.returncode
    print(bid, "clean demo", clean, r.stdout[-300:] if clean else "")
    ok = clean == 0
    for f, a, b in g["EDITS"]:
        s = open(d + "/" + f).read()
        if s.count(a) != 1: print("  EDIT matches %d times in %s: %r" % (s.count(a), f, a[:60])); ok = False; continue
        open(d + "/" + f, "w").write(s.replace(a, b))
    p = sh("git diff", cwd=d).stdout
    open(out + "/patch.diff", "w").write(p)
    r = sh("bash %s/demo.sh" % out, cwd=d)
    print("  patched demo", r.returncode, r.stdout[-300:]); ok = ok and r.returncode not in (0, 3, 4)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    if ok and "--notest" not in sys.argv:
        # the repository's own build and tests, in /repo (undone straight afterwards)
        sh("git -C /repo apply %s/patch.diff" % out)
        try:
            b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/bugw/t.json") if b.returncode == 0 else None
        finally:
            sh("git -C /repo checkout -- .")
        if b.returncode: print("  BUILD FAILS", b.stdout[-800:]); ok = False
        else:
            base = json.load(open("/opt/vp/BASELINE.json")); res = json.load(open("/tmp/bugw/t.json"))
            bl = base.get("passed") or base.get("stable") or base.get("tests") or base
            ps = set(res["passed"] if isinstance(res.get("passed"), list) else [k for k, v in res.items() if v in ("passed", True)])
            miss = [x for x in bl if x not in ps]
            print("  tests failing:", miss[:5], len(miss)); ok = ok and not miss
    print("  ==>", bid, "KEEP" if ok else "REJECT")
