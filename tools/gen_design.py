#!/usr/bin/env python3
"""Writes DESIGN.md (from DESIGN.in.md, the fix commits of /repo and the planted bugs) and known_findings.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "69d7227"
# property that each repaired defect violated, by a piece of the commit's subject
PROP = [("projectPoint", "C11"), ("PnP solves guesses", "C01"), ("label pose cov", "C09"), ("covariance of blocks outside", "C26"), ("leaves images without a pose", "C04"),
        ("problems that cannot be evaluated", "C26"), ("fewer than three", "C04"), ("negative mask", "C05"), ("transforms guessed without", "C05"), ("extrinsic calibrations is that", "C09"),
        ("parameters without variance", "C09"), ("wrong number of names", "C09"), ("radius, not", "C09"), ("chain made from", "C10"), ("several threads", "C25"),
        ("kinematic observations compare", "C12"), ("maximum likelihood", "C12"), ("hand-eye results load", "C13"), ("transforms are not a list", "C14"), ("defined random seed", "C10"),
        ("incomplete set of circle", "C22"), ("different marker dict", "C12"), ("do not match the cameras", "C26"), ("unreadable DH", "C14"), ("random homography", "C15"),
        ("single row or column", "C15"), ("behind the sensor", "C15"), ("single image has no spread", "C16"), ("non-finite quaternions", "C26"), ("accuracy of no", "C17"),
        ("does not leak", "C26"), ("centered outside", "C19"), ("fit an ellipse perfectly", "C19"), ("rows and columns exchanged is ordered", "C20"), ("mirrored orderings", "C20"),
        ("exchanged is refused", "C20"), ("without circles", "C20"), ("drawing marker", "C21"), ("not on the ArUco", "C21"), ("index file named", "C23"), ("different numbers of images", "C23"),
        ("cannot be written", "C23"), ("files that cannot be read", "C23"), ("not of unit length", "C14"), ("empty arrays", "C24"), ("negative number of rows", "C24"),
        ("not a whole circle grid", "C26"), ("limits that are not a range", "C26"), ("same parameter block twice", "C26"), ("all constant", "C26"), ("more joint values", "C26"),
        ("without observations", "C26"), ("huge or non-finite", "C26")]
extra = os.path.join(HERE, "tools", "fix_props.json")
if os.path.exists(extra):
    PROP += [tuple(x) for x in json.load(open(extra))]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], stdout=subprocess.PIPE, text=True, check=True).stdout
fixed, rows = [], ["| property | commit | what was repaired |", "|---|---|---|"]
for line in log.strip().split("\n"):
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = [b for a, b in PROP if a in s]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
    rows.append("| %s | %s | %s |" % (p[0], h, s[5:]))
path = HERE + "/known_findings.json"
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"), indent=1)
caught = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
seeds = ["| id | property | needs | quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/" + d + "/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], caught.get(d, "?")))
t = open(HERE + "/tools/DESIGN.in.md").read().replace("@FIXES@", "\n".join(rows)).replace("@SEEDS@", "\n".join(seeds))
open(HERE + "/DESIGN.md", "w").write(t)
print(len(fixed), "fixes,", len(seeds) - 2, "planted bugs")
