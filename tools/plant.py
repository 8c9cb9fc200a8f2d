"""plant.py FILE: makes seeded/<id> from a definition (edits, demo, meta), confirms it in a scratch copy, then runs the property's check on it."""
import json
import os
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
d = {}
exec(open(sys.argv[1]).read(), d)
ID, prop = d["ID"], d["PROP"]
OUT = os.environ.get("PLANT_OUT", "/verif/seeded")
out = f"{OUT}/{ID}"
RW = f"/tmp/rw_{ID}"
shutil.rmtree(RW, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", RW], check=True)
git = lambda *a: subprocess.run(["git", "-C", RW, *a], check=True, capture_output=True, text=True).stdout
for f, old, new in d["EDITS"]:
    p = os.path.join(RW, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
patch = git("diff")
base = git("show", "HEAD", "--stat")
os.makedirs(out, exist_ok=True)
open(f"{out}/patch.diff", "w").write(patch)
open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
open(f"{out}/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
os.chmod(f"{out}/demo.sh", 0o755)
json.dump(dict(property=prop, needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
a = subprocess.run([f"{out}/demo.sh"], cwd=RW, capture_output=True, text=True)
b = subprocess.run([f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("demo patched", a.returncode, (a.stdout + a.stderr)[-300:].strip())
print("demo clean  ", b.returncode, (b.stdout + b.stderr)[-600:].strip())
ok = a.returncode != 0 and b.returncode == 0
# changed lines must be original ones
own = subprocess.run(["git", "-C", RW, "diff", "feae20f", "HEAD", "-U0"], capture_output=True, text=True).stdout
mine = {l[1:].strip() for l in own.splitlines() if l.startswith("+") and not l.startswith("+++")}
for l in patch.splitlines():
    if l.startswith("-") and not l.startswith("---") and l[1:].strip() in mine and len(l.strip()) > 8:
        print("WARNING: removes a line of my own fix:", l)
t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", f"--rootdir={RW}", "-x" if False else "-q", "unit_tests"], cwd=RW,
                   env=dict(os.environ, PYTHONPATH="/opt/vp/pyplugin:" + RW), capture_output=True, text=True)
print("tests:", " | ".join(l for l in t.stdout.splitlines()[-6:] if "FAILED" in l or "passed" in l or "failed" in l))
if not ok:
    sys.exit("demo does not separate")
for p in [prop] + sys.argv[2:]:
    r = subprocess.run([os.environ.get("PLANT_VERIF", "/verif") + "/check", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, MC_REPO=RW))
    print("check", p, "exit", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2])
shutil.rmtree(RW, ignore_errors=True)
