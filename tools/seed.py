#!/usr/bin/env python3
"""Development tool for planted bugs (never used by a check).
  seed.py make DEF.py       write seeded/<id>/ for every entry of SEEDS in DEF.py
  seed.py eval ID...        in /repo: clean demo, patched build, stable tests, demo, check; then undo
"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -w -I. -Icommon/include -Igeometry/include -isystem /usr/include/eigen3 -o "$T/demo" "$D/demo.cpp" %s -lboost_filesystem -lboost_system -lpthread || exit 3
cd "$T" && timeout 60 ./demo > /dev/null 2>&1
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(defs):
    ns = {}
    scratch()
    exec(open(defs).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        assert sh("git -C /tmp/sw/repo status --porcelain -uno").stdout == ""
        for f, old, new in s["edits"]:
            p = os.path.join("/tmp/sw/repo", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /tmp/sw/repo diff").stdout)
        sh("git -C /tmp/sw/repo checkout -q -- .")
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        orig = "".join(sh("git -C /repo show %s:%s" % (base, f)).stdout for f, _, _ in s["edits"]).splitlines()
        gone = [l[1:] for l in open(os.path.join(d, "patch.diff")).read().splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(g in orig and g.strip() for g in gone): print("WARNING: no original line changed in", s["id"])
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(s.get("sh") or DEMO % s.get("link", ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])
SW = "/tmp/sw"
def scratch():
    """scratch copy of /repo (own build directory) and of /verif, so that development can go on"""
    if not os.path.exists(SW + "/repo/_build/build.ninja"):
        sh("rm -rf /tmp/sw; mkdir -p /tmp/sw; git clone -q /repo /tmp/sw/repo")
        print(sh("cmake -S . -B _build -G Ninja -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON", cwd=SW + "/repo",
           env=dict(os.environ, CC="gcc", CXX="g++")).stdout[-300:])
    sh("git fetch -q && git checkout -q -f origin/HEAD", cwd=SW + "/repo")
    sh("git -C %s/repo fetch -q /repo HEAD && git -C %s/repo checkout -q -f FETCH_HEAD" % (SW, SW))
    sh("rm -rf /tmp/sw/verif; mkdir -p /tmp/sw/verif; cd %s && cp -r spec harness comp check.py known_findings.json seeded /tmp/sw/verif/" % V)
def ev(ids, tests=True):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    scratch()
    R, VV = SW + "/repo", SW + "/verif"
    for i in ids:
        d = os.path.join(VV, "seeded", i)
        pid = json.load(open(d + "/meta.json"))["property"]
        c0 = sh("bash %s/demo.sh" % d, cwd=R).returncode
        r = sh("git -C %s apply %s/patch.diff" % (R, d))
        res = "PATCH FAILS"
        if r.returncode == 0:
            t, b = "-", "-"
            if tests:
                b = sh("ninja -C _build", cwd=R).returncode
                t = True
                for x in stable:
                    a = {"common/test_morton_functions": "-test split", "common/test_io": "-dir /repo/common/app"}.get(x, "")
                    td = "/tmp/sw/run"
                    sh("rm -rf /tmp/sw/run; mkdir -p /tmp/sw/run")
                    t = t and sh("timeout 30 %s/_build/%s %s > /dev/null" % (R, x, a), cwd=td).returncode == 0
            c1 = sh("bash %s/demo.sh" % d, cwd=R).returncode
            ck = sh("ROFL_REPO=%s python3 check.py %s" % (R, pid), cwd=VV)
            res = "build=%s tests=%s demo clean=%s patched=%s check=%s %s" % (b, t, c0, c1, ck.returncode,
                [l[:260] for l in ck.stdout.splitlines() if "rejected" in l or "UNDECIDED" in l] or ck.stdout[-300:])
        sh("git -C %s checkout -q -f ." % R)
        ok = "OK " if ("tests=False" not in res and "clean=0" in res and "patched=0" not in res and "check=1" in res) else "BAD"
        print(ok, i, pid, res, flush=True)
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "make": make(a[2])
    else:
        t = "--notests" not in a
        ids = [x for x in a[2:] if not x.startswith("--")] or sorted(os.path.basename(x) for x in glob.glob(V + "/seeded/*"))
        ev(ids, t)
