#!/usr/bin/env python3
"""seedtry.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms each in the scratch copy /tmp/seed.
Each seed file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source).
SKIP=1 skips the confirmation. Scratch: cp -a /repo /tmp/seed; scripts with substituted paths in /tmp/vps."""
import sys, os, json, subprocess, glob, shutil
V = "/verif"; SC = "/tmp/seed"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/tools/seeds/*.py") if not p.endswith("xd.py"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
bad = []
for i in ids:
    ns = {}
    exec(open(f"{V}/tools/seeds/{i}.py").read(), ns)
    sh("git", "-C", SC, "checkout", "--", ".")
    ok = True
    for f, old, new in ns["EDITS"]:
        p = f"{SC}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(i, "edit matches", s.count(old), "times:", f, repr(old[:60])); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: bad.append(i); continue
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", SC, "diff"], capture_output=True, text=True).stdout)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
    shutil.copy(V + "/tools/seeds/xd.py", d + "/xd.py")
    for extra in ns.get("FILES", []): shutil.copy(f"{V}/tools/seeds/{extra}", d)
    if os.environ.get("SKIP"): continue
    b = sh("bash", "/tmp/vps/build.sh")
    if b.returncode: print(i, "BUILD FAILED\n", b.stdout[-3000:]); bad.append(i); continue
    r = sh("bash", d + "/demo.sh", cwd=SC)
    print(i, "demo with patch: exit", r.returncode, r.stdout.strip()[-200:].replace("\n", " | "))
    if r.returncode == 0: bad.append(i)
    sh("bash", "/tmp/vps/test.sh", "/tmp/t.json")
    passed = set(json.load(open("/tmp/t.json"))["passed"])
    if stable - passed: print(i, "TESTS FAIL:", sorted(stable - passed)); bad.append(i)
    sh("git", "-C", SC, "checkout", "--", ".")
    b = sh("bash", "/tmp/vps/build.sh"); assert b.returncode == 0
    r = sh("bash", d + "/demo.sh", cwd=SC)
    if r.returncode: print(i, "DEMO FAILS ON CLEAN:", r.returncode, r.stdout[-1500:]); bad.append(i)
    sys.stdout.flush()
print("bad:", bad)
