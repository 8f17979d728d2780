#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ from a specification: ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (c++)."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = f"{V}/seeded/{ns['ID']}"
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
try:
    for f, o, n in ns["EDITS"]:
        p = f"{t}/w/{f}"
        s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True))
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
    shutil.rmtree(t)
open(f"{d}/demo.cpp", "w").write(ns["DEMO"])
shutil.copy(f"{V}/tools/demo/demo.sh", d)
if "dsolver.h" in ns["DEMO"]:
    shutil.copy(f"{V}/tools/demo/dsolver.h", d)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
