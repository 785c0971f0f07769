"""seedtable.py [--all]: does its own check (with --all: which checks) report each planted bug; rewrites the table of
section 7 of DESIGN.md"""
import json
import os
import shutil
import subprocess
import sys
import concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pids = [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
TMP = "/tmp/seedtable"


def one(pid, d):
    r = subprocess.run(["python3", V + "/engine/check.py", pid], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    return pid if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else None


if '--all' not in sys.argv:
    pids = []
rows = []
for s in sorted(os.listdir(V + "/seeded")):
    p = "%s/seeded/%s" % (V, s)
    m = json.load(open(p + "/meta.json"))
    shutil.rmtree(TMP, ignore_errors=True)
    os.makedirs(TMP)
    for x in ("src", "include"):
        shutil.copytree("/repo/" + x, TMP + "/" + x)
    subprocess.run(["git", "init", "-q", "."], cwd=TMP, check=True)
    subprocess.run(["git", "apply", "--unsafe-paths", p + "/patch.diff"], cwd=TMP, check=True)
    first = one(m["property"], TMP)
    with cf.ThreadPoolExecutor(4) as ex:
        hit = [first] + [x for x in ex.map(lambda q: one(q, TMP), [q for q in pids if q != m["property"]]) if x]
    rows.append("| %s | %s | %s |" % (s, m["needs"], ' '.join(h for h in hit if h) or 'missed'))
    print(rows[-1], flush=True)
shutil.rmtree(TMP, ignore_errors=True)
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = t.index(a) + len(a), t.index(b)
open(V + "/DESIGN.md", "w").write(t[:i] + "\n| planted bug | needs | reported by |\n|---|---|---|\n" + '\n'.join(rows) + "\n" + t[j:])
