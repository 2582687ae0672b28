#!/usr/bin/env python3
"""quiet.py [REGEX] [-j N]: behaviour-preserving edits (tools/quiet/*.py), each applied to a scratch copy of
/repo; the related checks must stay quiet.  Development aid."""
import sys, os, re, glob, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import trial
pat = next((a for a in sys.argv[1:] if not a.startswith("-")), "")
full = "-a" in sys.argv
Q = {}
for f in sorted(glob.glob(HERE + "/quiet/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    Q.update(ns["Q"])


def one(name):
    props, edits = Q[name]
    d = tempfile.mkdtemp(prefix="quiet_")
    try:
        shutil.copytree("/repo", d + "/r", symlinks=True)
        for f, old, new in edits:
            p = d + "/r/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, ["edit of %s does not apply: %r" % (f, old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "diff"], cwd=d + "/r", capture_output=True, text=True).stdout
        open(d + "/p.diff", "w").write(diff)
        return name, trial.run(d + "/p.diff", props)
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = [n for n in Q if re.search(pat, n)]
with ThreadPoolExecutor(3) as ex:
    for n, out in ex.map(one, names):
        print("==", n)
        for l in out:
            bad = "rc=0" not in l and l != "tests: pass" or "undecided:" in l or "unavailable" in l or "bounded only" in l
            if bad or full:
                print("   ", l[:900])
        sys.stdout.flush()
