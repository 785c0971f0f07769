#!/usr/bin/env python3
"""seedtool.py FILE.py...: confirm planted bugs and keep them under seeded/.

Each FILE defines: ID, PROPERTY, EDITS = [(file, old, new), ...], DEMO (C++ text of a program returning 0 when right),
NEEDS, BREAKS; optional DEMO_ARGS, DEMO_SH.  The bug is applied to /repo, built, tested, demonstrated, and undone."""
import json
import os
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ("clang++ -std=gnu++20 -O1 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB "
       "-I/repo/include %s\"$here/demo.cpp\" -o \"$tmp/demo\" /repo/_build/libshiguredo-mp4.a -lspdlog -lfmt -pthread")
SH = """#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
%s || exit 2
cd "$tmp" && timeout 60 ./demo
""" % (CXX % "")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build():
    return sh("bash /opt/vp/build.sh")


def main():
    for fn in sys.argv[1:]:
        if fn.startswith('--'):
            continue
        ns = {}
        exec(open(fn).read(), ns)
        d = os.path.join(VERIF, "seeded", ns["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.cpp"), "w").write(ns["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(ns.get("DEMO_SH", SH))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        assert not sh("git -C /repo status --porcelain --untracked-files=no").stdout, "repo not clean"
        b = build()
        assert b.returncode == 0
        r0 = sh("bash %s/demo.sh" % d, cwd=REPO)
        ok = r0.returncode == 0
        if not ok:
            print(ns["ID"], "demo fails on the unchanged tree", r0.returncode, r0.stdout[-800:], r0.stderr[-1500:])
        try:
            for f, old, new in ns["EDITS"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            patch = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            b = build()
            if b.returncode:
                print(ns["ID"], "does not build", b.stdout[-3000:])
                ok = False
            else:
                t = sh("bash /opt/vp/test.sh /tmp/seeds/out.json")
                o = json.load(open("/tmp/seeds/out.json"))
                stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                miss = [x for x in stable if x not in o["passed"]]
                if miss:
                    print(ns["ID"], "tests fail:", miss)
                    ok = False
                r1 = sh("bash %s/demo.sh" % d, cwd=REPO)
                if r1.returncode == 0:
                    print(ns["ID"], "demo passes with the bug")
                    ok = False
                man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
                caught = []
                for c in man["checks"]:
                    if "--own" in sys.argv and c["property"] != ns["PROPERTY"]:
                        continue
                    r = sh(c["quick_cmd"], cwd=VERIF)
                    if r.returncode != 0:
                        caught.append("%s(%d)" % (c["property"], r.returncode))
                        if r.returncode == 1:
                            print("   ", r.stdout.split("\n")[0][:300])
                print(ns["ID"], "for", ns["PROPERTY"], "caught by", caught, "demo rc", r1.returncode, r1.stdout.strip()[-200:])
        finally:
            sh("git -C /repo checkout -- .")
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        if not ok:
            print(ns["ID"], "NOT KEPT")
            sh("rm -rf %s" % d)
    build()


main()
