#!/usr/bin/env python3
"""trial.py PATCH PROP... : run checks against a scratch copy of /repo with PATCH applied (development
aid: planted bugs and behaviour-preserving edits can be tried without touching /repo).
PATCH may be '-' for none.  Prints build/test status and one line per property."""
import sys, os, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(patch, props, quiet=False, tests=True):
    d = tempfile.mkdtemp(prefix="trial_")
    out = []
    try:
        repo, ver = d + "/repo", d + "/verif"
        shutil.copytree("/repo", repo, symlinks=True)
        if patch != "-":
            r = subprocess.run(["git", "apply", os.path.abspath(patch)], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return ["patch does not apply: " + r.stderr]
        env = dict(os.environ)
        if tests:
            r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s && go build ./... && go vet ./... >/dev/null 2>&1; go test -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'" % repo],
                               capture_output=True, text=True)
            out.append("tests: " + (r.stdout.strip()[-600:] + r.stderr[-600:] or "pass"))
        os.makedirs(ver)
        for f in os.listdir(V):
            if f in ("check.py", "evidence", "replay", ".git", "seeded"):
                continue
            os.symlink(V + "/" + f, ver + "/" + f)
        s = open(V + "/check.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
        open(ver + "/check.py", "w").write(s)
        for p in props:
            r = subprocess.run(["python3-vt", ver + "/check.py", p], capture_output=True, text=True, cwd=ver)
            lines = r.stdout.strip().splitlines()
            out.append("%s rc=%d %s" % (p, r.returncode, " | ".join(l.strip()[:160] for l in lines[:12])))
            if r.returncode not in (0, 1):
                out.append(r.stderr[-800:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    for l in run(sys.argv[1], sys.argv[2:]):
        print(l)
