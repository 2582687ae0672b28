#!/usr/bin/env python3
"""mkseed.py: reads a python file with SEEDS = {id: dict(property, needs, breaks, pkg, edits=[(file, old, new)], demo)} and writes seeded/<id>/"""
import sys, os, subprocess, json, shutil, tempfile, runpy
SE = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
for sid, s in SE.items():
    if only and sid not in only:
        continue
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
    for f, old, new in s["edits"]:
        p = w + "/repo/" + f
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, "edit matches", t.count(old), "times in", f); break
        open(p, "w").write(t.replace(old, new))
    else:
        subprocess.run(["gofmt", "-l", w + "/repo/" + s["edits"][0][0]], env=dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]))
        d = subprocess.run(["git", "-C", w + "/repo", "diff"], capture_output=True, text=True).stdout
        out = "/verif/seeded/" + sid
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demo_test.go", "w").write(s["demo"])
        open(out + "/pkg.txt", "w").write(s["pkg"])
        shutil.copy("/verif/tools/demo.sh", out + "/demo.sh")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(w)
