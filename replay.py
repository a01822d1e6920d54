#!/usr/bin/env python3
"""Rebuild the harness named in a replay file and run its single history."""
import json, subprocess, sys, os, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
r = json.load(open(sys.argv[1]))
print("property %s job %s\n%s: %s" % (r["property"], r["job"], r["kind"], r["message"]))
if r["job"] == "build":
    print(r["log"]); sys.exit(1)
out = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), r["property"], "--keep", "--only", "::none::"], stdout=subprocess.PIPE).stdout.decode()
work = [l.split()[1] for l in out.splitlines() if l.startswith("kept ")][0]
sys.path.insert(0, HERE)
import check
rc = 3
for b in sorted(os.listdir(work)):
    if b.startswith("bin"):
        exe = os.path.join(work, b)
        if r["job"] in subprocess.run([exe, "--list", "--tier", "thorough"], stdout=subprocess.PIPE, env=check.ENV).stdout.decode().split("\n"):
            rc = subprocess.run([exe, "--job", r["job"], "--tier", "thorough", "--replay", ",".join(map(str, r["history"])) or ","], env=check.ENV).returncode
            print("%s -> exit %s" % (exe, rc))
            if rc: break
import shutil; shutil.rmtree(work, ignore_errors=True)
sys.exit(0 if rc == 0 else 1)
