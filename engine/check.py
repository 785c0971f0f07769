#!/usr/bin/env python3
"""check.py <property id> [--list]: decides one property on /repo's current source.

exit 0: holds on everything analysed; exit 1 with VIOLATION lines: broken; exit 3: the analysis itself broke."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import prog as P                                    # noqa: E402
from result import Result                           # noqa: E402

REGISTRY = {
    "C01": "codec", "C02": "codec", "C03": "codec", "C04": "codec",
    "C15": "wirefmt",
    "C05": "behave", "C06": "behave", "C07": "behave", "C09": "behave", "C10": "behave", "C11": "behave", "C12": "behave", "C13": "behave", "C14": "behave", "C16": "behave", "C17": "behave",
    "C18": "behave", "C22": "behave", "C25": "behave", "C23": "behave", "C26": "behave", "C28": "behave", "C20": "behave", "C08": "behave",
}


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> | text' and 'fixed: property=<id> <commit> <text>'"""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("finding:"):
                head, _, text = ln[len("finding:"):].partition("|")
                f = dict(x.split("=", 1) for x in head.split())
                known[(f["property"], f["key"])] = text.strip()
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or ("thorough" if "--thorough" in sys.argv else "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    mod = importlib.import_module("rules." + REGISTRY[pid])
    prog = P.Program(fresh=(tier == "thorough"))
    res = Result(pid, tier)
    mod.run(pid, prog, res, tier)
    if pid in ("C01", "C02", "C03", "C04", "C14", "C15"):
        importlib.import_module("rules.behave").helpers(pid, prog, res)
    importlib.import_module("rules.lints").run(pid, prog, res)
    known = load_known()
    seen, viol, kf = set(), [], []
    for v in res.violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        (kf if (pid, v["key"]) in known else viol).append(v)
    for old in os.listdir(evdir):
        if old.startswith(pid + ".violation"):
            os.unlink(os.path.join(evdir, old))
    for v in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, v["key"])] or v["text"]))
    for i, v in enumerate(viol):
        path = os.path.join(evdir, "%s.violation%d.txt" % (pid, i + 1))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\n%s\nreproduce: python3 engine/check.py %s\n" %
                    (pid, v["key"], v["text"], pid))
        print(v["text"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    cov = dict(res.coverage)
    cov["source_files_parsed"] = len(prog.tus)
    cov["functions_in_program"] = len(prog.fns)
    cov["undecided"] = len(res.undecided)
    if res.undecided:
        cov["undecided_instances"] = res.undecided[:40]
    cov.setdefault("explanation", res.explanation)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    tmp = os.path.join(evdir, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    print("%s: %s (%d undecided, %.1f s)" % (pid, "VIOLATED" if viol else "holds on what was analysed",
                                             len(res.undecided), time.time() - t0))
    for u in res.undecided[:20]:
        print("  undecided: %s" % u)
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        rc = main()
    except P.AnalysisBroken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
