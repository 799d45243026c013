#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/seeds/*.py: each file defines
property, needs, breaks, edits = [(file, old, new)], demo = text of demo.py."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    sid = os.path.basename(f)[:-3]
    if only and sid not in only:
        continue
    ns = {}
    exec(open(f).read(), ns)
    tmp = "/tmp/mkseed"
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for fn, old, new in ns["edits"]:
        s = open(tmp + "/" + fn).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s of %r" % (sid, s.count(old), fn, old))
        open(tmp + "/" + fn, "w").write(s.replace(old, new))
    d = V + "/seeded/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    for k in os.listdir(V + "/tools/demokit"):
        if k.endswith(".pem") and "CERT" not in ns["demo"] and "HERE" not in ns["demo"]:
            continue
        if k == "__pycache__":
            continue
        shutil.copy(V + "/tools/demokit/" + k, d + "/" + k)
    open(d + "/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, sys.argv[2])\nfrom lib import *\n" + ns["demo"].strip() + "\ndone()\n")
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    print(sid, ns["property"])
