#!/usr/bin/env python3
"""mut.py [REGEX]: breaking edits (tools/mutants/*.py), each applied to a scratch copy of /repo; reports which
are detected by the related checks and whether a failing input was found.  Development aid; no check reads this."""
import sys, os, re, glob, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import trial
pat = next((a for a in sys.argv[1:] if not a.startswith("-")), "")
full = "-a" in sys.argv
Q = {}
for f in sorted(glob.glob(HERE + "/mutants/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    Q.update(ns["Q"])


def one(name):
    props, edits = Q[name]
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo", d + "/r", symlinks=True)
        for f, old, new in edits:
            p = d + "/r/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return name, ["edit of %s does not apply: %r" % (f, old[:60])]
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "diff"], cwd=d + "/r", capture_output=True, text=True).stdout
        open(d + "/p.diff", "w").write(diff)
        return name, trial.run(d + "/p.diff", props)
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = [n for n in Q if re.search(pat, n)]
with ThreadPoolExecutor(4) as ex:
    for n, out in ex.map(one, names):
        st = []
        for l in out:
            if l.startswith("tests:"):
                if l != "tests: pass":
                    st.append("TESTS-FAIL")
            elif " rc=1" in l:
                st.append(l[:3] + (" caught-noinput" if "no-failing-input-found" in l else " caught"))
            elif " rc=0" in l:
                st.append(l[:3] + " MISSED" + (" undecided" if "undecided:" in l else ""))
            else:
                st.append(l[:300])
        print("%-24s %s" % (n, "; ".join(st)))
        if full or "TESTS-FAIL" in st or any("MISSED" in s or "apply" in s for s in st):
            for l in out:
                print("       ", l[:700])
        sys.stdout.flush()
