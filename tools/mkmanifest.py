import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import props, models
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/notes.py").read())
claimed = [p["id"] for p in P if p["id"] in props.TRACE or p["id"] in models.PARTS]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": "python3 -m vp.check %s quick" % i,
                 "thorough_cmd": "python3 -m vp.check %s thorough" % i,
                 "technique": TECH.get(i, TECH["default"]), "level": "model_checking",
                 "level_note": NOTE.get(i, NOTE["default"])} for i in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in claimed],
     "hooks": {"guard": "JENT_CONF_ENABLE_MOCK_TIMER", "enable": "harness/build.sh compiles the library with the repository's own -DJENT_CONF_ENABLE_MOCK_TIMER and redirects libc calls at link time; no hook was added to /repo", "source_commits": []}}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
