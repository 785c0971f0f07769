#!/usr/bin/env python3
"""refactor.py FILE.py [C01 C02 ...]: applies the behaviour-preserving edits of FILE.py (EDITS = [(file, old, new), ...]) to
a copy of /repo's sources, compiles the changed files, and runs the checks on it; every one has to stay quiet."""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=gnu++20", "-w", "-fsyntax-only", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED"]


def check(p, w):
    r = subprocess.run(["python3", VERIF + "/engine/check.py", p], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=w))
    return p, r.returncode, (r.stdout + r.stderr).replace("shiguredo::mp4::", "")


def main():
    spec = runpy.run_path(sys.argv[1])
    edits = spec["EDITS"]
    pids = sys.argv[2:] or [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    w = "/tmp/refactor.%d" % os.getpid()
    os.makedirs(w)
    try:
        for d in ("src", "include"):
            shutil.copytree("/repo/" + d, w + "/" + d)
        cpp = set()
        for dp, _, fs in os.walk(w):
            for x in fs if spec.get("RENAMES") else ():
                s = open(dp + "/" + x).read()
                t = s
                for a, b in spec["RENAMES"]:
                    t = re.sub(r"\b%s\b" % a, b, t)
                if t != s:
                    open(dp + "/" + x, "w").write(t)
                    cpp.add(os.path.relpath(dp + "/" + x, w))
        for f, old, new in edits:
            s = open(w + "/" + f).read()
            if s.count(old) < 1:
                print("NOT FOUND %s: %s" % (f, old[:80]))
                return 9
            open(w + "/" + f, "w").write(s.replace(old, new, 1))
            cpp.add(f)
        if any(f.endswith(".hpp") for f in cpp):
            cpp |= {os.path.relpath(os.path.join(dp, x), w) for dp, _, fs in os.walk(w + "/src") for x in fs}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for f, r in zip(sorted(x for x in cpp if x.endswith(".cpp")), ex.map(lambda f: subprocess.run(["clang++", *FLAGS, "-I" + w + "/include", w + "/" + f],
                                                                         capture_output=True, text=True),
                                          sorted(x for x in cpp if x.endswith(".cpp")))):
                if r.returncode:
                    print("DOES NOT COMPILE", f, r.stderr[:1500])
                    return 9
        first, *rest = pids
        out = [check(first, w)]
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            out += list(ex.map(lambda p: check(p, w), rest))
        bad = 0
        for p, rc, text in out:
            und = re.search(r"\((\d+) undecided", text)
            print(p, rc, "undecided " + und.group(1) if und else text[-300:])
            if rc:
                bad = 1
                print("\n".join(x[:400] for x in text.splitlines() if not x.startswith("VIOLATION"))[:3000])
            elif und and und.group(1) != "0":
                print("\n".join(x[:260] for x in text.splitlines() if "undecided:" in x)[:1500])
        return bad
    finally:
        shutil.rmtree(w)


sys.exit(main())
