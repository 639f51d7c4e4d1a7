import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from config import PROPS
NA = {}
if os.path.exists(HERE + "/not_applicable.json"):
    NA = json.load(open(HERE + "/not_applicable.json"))
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "RCT_VERIF", "enable": "the harness build defines RCT_VERIF for every translation unit; no hook is needed so far, so no /repo source tests it", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "exploration",
                            "level_note": c["note"] + "; says nothing about inputs not generated; trusts the compiler's sanitizers, the installed Ceres/OpenCV/yaml-cpp and the reference formulas of the harness"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
