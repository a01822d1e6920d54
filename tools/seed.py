#!/usr/bin/env python3
"""Make (or recheck) a planted bug from a spec file.
   seed.py SPEC.py        SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), FLAGS
   seed.py --recheck ID   confirm an existing one against /repo's HEAD
Confirms in a scratch copy: demo passes unchanged, fails with the patch, stable tests pass with the patch."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = '''#!/bin/bash
# Run in the root of the repository.  Exit 0: the property holds.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
clang++ -std=c++17 -w -g0 -pthread %s -I"$D/shim" -I"$PWD/src" "$D/demo.cpp" %s -o "$T/demo" -ldl || exit 3
( cd "$T" && ASAN_OPTIONS=detect_leaks=0:symbolize=0 timeout 250 ./demo )
'''
def confirm(d, meta):
    t = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = t + "/repo"
        assert sh(["git", "clone", "-q", "/repo", r]).returncode == 0
        # laid elsewhere, as when it counts
        e = t + "/elsewhere"
        shutil.copytree(d, e, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        a = sh(["bash", e + "/demo.sh"], cwd=r)
        if a.returncode != 0: return "demo fails on the unchanged tree:\n" + a.stdout[-1500:]
        p = sh(["git", "apply", d + "/patch.diff"], cwd=r)
        if p.returncode: return "patch does not apply: " + p.stdout
        b = sh(["bash", e + "/demo.sh"], cwd=r)
        if b.returncode == 0: return "demo passes with the patch"
        if b.returncode == 3: return "demo does not compile with the patch:\n" + b.stdout[-1500:]
        print("  demo with patch: exit %d: %s" % (b.returncode, b.stdout.strip()[-200:]))
        # stable tests, with the patch applied to /repo itself for a moment
        g = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        try:
            sh(["bash", "/opt/vp/test.sh", t + "/o.json"])
            o = json.load(open(t + "/o.json"))
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
            sh(["bash", "/opt/vp/build.sh"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base.get("stable", base.get("passed", base.get("tests", []))))
        if not want: want = None
        if want and not want <= set(o["passed"]): return "stable tests fail: %s" % (want - set(o["passed"]))
        if not want and len(o["passed"]) != 8: return "stable tests: %s" % o
        return None
    finally:
        shutil.rmtree(t)
def main():
    if sys.argv[1] == "--recheck":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        bad = 0
        for i in ids:
            d = V + "/seeded/" + i
            e = confirm(d, json.load(open(d + "/meta.json")))
            print(i, "ok" if e is None else "BAD " + e); bad |= e is not None
        sys.exit(bad)
    s = runpy.run_path(sys.argv[1])
    d = V + "/seeded/" + s["ID"]
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seedp_", dir="/tmp")
    try:
        r = t + "/r"
        sh(["git", "clone", "-q", "/repo", r])
        for f, old, new in s["EDITS"]:
            x = open(r + "/" + f).read()
            n = x.count(old)
            if n != 1: print("edit matches %d times in %s: %r" % (n, f, old)); shutil.rmtree(d); sys.exit(1)
            open(r + "/" + f, "w").write(x.replace(old, new))
        diff = sh(["git", "diff"], cwd=r).stdout
        open(d + "/patch.diff", "w").write(diff)
        # changed lines have to be original ones
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=r).stdout.split()[-1]
        sh(["git", "checkout", "-q", "-f", base], cwd=r)
        for f, old, new in s["EDITS"]:
            orig = open(r + "/" + f).read().split("\n")
            for l in diff.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig: print("  note: not an original line: " + l)
    finally:
        shutil.rmtree(t)
    shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.cpp", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH % (s.get("FLAGS", "-O1"), s.get("SOURCES", '"$PWD/src/system.cpp"')))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    e = confirm(d, None)
    print(s["ID"], "ok" if e is None else "BAD " + e)
    if e is not None: sys.exit(1)
    if "--check" in sys.argv:
        for c in s.get("CHECKS", [s["PROPERTY"]]):
            t = tempfile.mkdtemp(prefix="seedc_", dir="/tmp")
            try:
                r = t + "/r"; sh(["git", "clone", "-q", "/repo", r]); sh(["git", "apply", d + "/patch.diff"], cwd=r)
                o = sh(["python3", V + "/check.py", c], env=dict(os.environ, VERIF_REPO=r))
                print("  check %s: exit %d %s" % (c, o.returncode, o.stdout[:500]))
            finally:
                shutil.rmtree(t)
main()
