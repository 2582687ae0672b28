#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property on /repo's current working tree:
 1. dump the SSA form of every package of /repo (go/ssa, gossa/),
 2. check every contract and lemma of the property - and every contract those rely on - against
    the bodies in that dump; a helper whose contract no longer holds is inlined into its callers,
 3. run the replay driver of the property (Go, public API, independent oracle) on the real code.
Exit 0: all obligations discharged (or, where the current source is out of reach of the verifier,
the bounded driver found nothing: reported as such).  Exit 1 with a VIOLATION line otherwise."""
import sys, os, re, json, time, itertools, subprocess, tempfile, shutil, signal, traceback, hashlib, resource
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/engine", HERE + "/contracts"]
sys.setrecursionlimit(60000)
REPO = "/repo"
BUILD = HERE + "/.build"
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))

import props


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, **kw)


def build_gossa():
    """the dumper is built from its committed source"""
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256()
    for f in ("main.go", "go.mod", "go.sum"):
        h.update(open(HERE + "/gossa/" + f, "rb").read())
    out = BUILD + "/gossa-" + h.hexdigest()[:16]
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = sh(["go", "build", "-o", tmp, "."], cwd=HERE + "/gossa")
        if r.returncode != 0:
            raise SystemExit("cannot build gossa: " + r.stderr)
        os.rename(tmp, out)
    return out


def modfile(tmp):
    shutil.copy(REPO + "/go.mod", tmp + "/go.mod")
    if os.path.exists(REPO + "/go.sum"):
        shutil.copy(REPO + "/go.sum", tmp + "/go.sum")
    return tmp + "/go.mod"


# ------------------------------------------------------------------ verifier workers
G = {}


def init(ssa, disabled=()):
    import values, contract, importlib
    for m in props.MODULES:
        importlib.import_module(m)
    G["prog"] = values.Prog(json.load(open(ssa)))
    G["contract"] = contract


class Timeout(Exception):
    pass


def unit(job):
    """check one configuration of one contract or lemma"""
    kind, name, dims, disabled, sym, limit, limits, extra = job
    import solver, terms
    contract = G["contract"]
    c = (contract.REG if kind == "contract" else contract.LEMMAS)[name]
    for k, x in contract.REG.items():
        x.enabled = k not in disabled
        x.maxsize = limits.get(k)
    r = {"kind": kind, "name": name, "dims": {k: repr(v) for k, v in dims.items()}, "sym": sym, "obs": [], "used": [],
         "externs": [], "status": "ok", "why": ""}
    t0 = time.time()
    s0 = dict(solver.STATS)

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    try:
        f = contract.check_contract if kind == "contract" else contract.check_lemma
        if sym:
            dims = {k: terms.Int.of(terms.atom("nat", k)) if v == ANYSIZE else v for k, v in dims.items()}
        ex, obs = f(c, G["prog"], contract.REG, ", ".join("%s=%s" % x for x in dims.items()), dims=dims, symbolic=sym)
        for o in obs:
            d = {"fn": o.fn, "kind": o.kind, "label": o.label, "cfg": str(o.cfg), "ok": bool(o.ok), "definite": o.definite}
            if not o.ok:
                d["detail"] = str(o.detail)[:1500]
                d["pc"] = [contract.short(x) for x in o.pc][:40]
                d["verdict"] = refute(o)
                if sym and o.kind != "unsupported":
                    g = [terms.b_not(o.goal)] if isinstance(o.goal, terms.Atom) else []
                    d["sizes"] = solver.witness(list(o.pc) + g, [k for k, v in job[2].items() if v == ANYSIZE])
            r["obs"].append(d)
        r["used"] = sorted(ex.used)
        r["externs"] = sorted(ex.externs_used)
        if any(not o.ok for o in obs):
            r["status"] = "failed"
    except Timeout:
        r["status"], r["why"] = "undecided", "time limit %ds" % limit
    except terms.Unsupported as e:
        r["status"], r["why"] = "undecided", "unsupported: %s" % e
    except MemoryError:
        r["status"], r["why"] = "undecided", "memory"
    except Exception as e:
        r["status"], r["why"] = "undecided", "engine: %s: %s at %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3:-1])
    finally:
        signal.alarm(0)
    r["wall"] = time.time() - t0
    r["solver"] = {k: solver.STATS[k] - s0.get(k, 0) for k in solver.STATS}
    return r


def refute(o):
    """try to find values that satisfy the path condition and falsify the goal"""
    try:
        import evalt
        return evalt.refute(o.pc, o.goal)
    except Exception as e:
        return "not evaluated (%s)" % e


DRIVER_FAILED = mp.Value("d", 0.0)      # when the replay driver found a failing input
AFTER_FAILURE = 25


def await_(x, deadline):
    """result of a job; gives up at the deadline, or soon after the driver has shown a violation"""
    while True:
        try:
            return x.get(timeout=2)
        except mp.TimeoutError:
            f = DRIVER_FAILED.value
            if time.time() > deadline or f and time.time() > f + AFTER_FAILURE:
                raise


def exported(fn):
    n = fn.rsplit(".", 1)[-1]
    return n[:1].isupper()


def run_verifier(prop, ssa, tier, deadline):
    init(ssa)
    contract = G["contract"]
    REG, LEM = contract.REG, contract.LEMMAS
    prog = G["prog"]
    have = lambda n: n in prog.fns
    missing = [n for n, c in REG.items() if prop in c.props and not have(n)]
    targets = [("contract", n) for n, c in REG.items() if prop in c.props and have(n)] + \
              [("lemma", n) for n, c in LEM.items() if prop in c.props]
    disabled = frozenset(n for n in REG if not have(n))
    limit = {"quick": 150, "thorough": 1500}[tier]
    done = {}       # key -> result
    queue = []
    known = set()
    escalated = set()
    limits = {}     # contract -> largest size it is known to hold for, where there is no proof for all sizes

    def add(kind, name):
        if (kind, name) in known:
            return
        known.add((kind, name))
        c = (REG if kind == "contract" else LEM)[name]
        for d, sym in configs(c, tier):
            queue.append((kind, name, d, sym, False))

    for t in targets:
        add(*t)
    # heavy configurations first
    ctx = mp.get_context("fork")
    rounds = 0
    while queue:
        rounds += 1
        f = DRIVER_FAILED.value
        if rounds > 1 and (time.time() > deadline or f and time.time() > f + AFTER_FAILURE):
            break
        jobs = [(k, n, d, disabled, s, min(limit, 60) if s else 20 if extra and tier == "quick" else limit, dict(limits), extra)
                for k, n, d, s, extra in queue]
        jobs.sort(key=lambda j: -weight(j[2]))
        queue = []
        with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=40) as pool:
            res = [(j, pool.apply_async(unit, (j,))) for j in jobs]
            for j, x in res:
                try:
                    r = await_(x, deadline)
                except mp.TimeoutError:
                    r = {"kind": j[0], "name": j[1], "dims": {k: repr(v) for k, v in j[2].items()}, "sym": j[4], "obs": [],
                         "used": [], "externs": [], "status": "undecided", "why": "overall time limit", "wall": 0, "solver": {}}
                r["job"] = (j[0], j[1], j[2], j[4], j[7])
                if j[7] and r["status"] == "undecided":
                    continue        # a larger size than usual, out of reach: nothing is concluded from it
                done[(j[0], j[1], repr(j[2]), j[4])] = r
        for r in list(done.values()):
            for u in r["used"]:
                if ("contract", u) not in known:
                    add("contract", u)
        # no proof for all sizes: look at larger concrete ones, and rely on the contract only up to those
        for r in list(done.values()):
            if r["sym"] and r["status"] != "ok" and (r["kind"], r["name"]) not in escalated:
                escalated.add((r["kind"], r["name"]))
                c = (REG if r["kind"] == "contract" else LEM)[r["name"]]
                sizes = [v for d in symdims(c) for v in c.dims[d] if isinstance(v, int)]
                if time.time() < deadline - 300:
                    for d in larger(c, prog):
                        queue.append((r["kind"], r["name"], d, False, True))
                    # and at the sizes for which the failing obligation fails
                    for q in list(done.values()):
                        if q["sym"] and q["name"] == r["name"] and q["kind"] == r["kind"]:
                            for o in q["obs"]:
                                if o.get("sizes"):
                                    d = dict(q["job"][2], **o["sizes"])
                                    if (q["kind"], q["name"], d, False, True) not in queue:
                                        queue.append((q["kind"], q["name"], d, False, True))
                if r["kind"] == "contract":
                    limits[r["name"]] = max(sizes or [0])
                    for key, q in list(done.items()):
                        if r["name"] in q["used"] and not (q["name"] == r["name"]):
                            del done[key]
                            queue.append(q["job"])
        # contracts that do not hold are not relied upon: their callers are re-checked with the body inlined
        bad = set()
        for r in done.values():
            if r["kind"] == "contract" and r["status"] != "ok" and not r["sym"] and r["name"] not in disabled:
                bad.add(r["name"])
        if bad:
            disabled = disabled | bad
            for key, r in list(done.items()):
                if set(r["used"]) & bad:
                    del done[key]
                    queue.append(r["job"])
    return list(done.values()), missing, disabled


def weight(d):
    w = 1
    for v in d.values():
        if isinstance(v, int):
            w *= 1 + abs(v)
        else:
            w *= 1 + len(repr(v))
    return w


ANYSIZE = "any"


def symdims(c):
    """the dimensions that range over all sizes in the unbounded configuration"""
    if not c.sym or not c.dims:
        return []
    return getattr(c, "symdims", None) or [d for d in c.dims if d not in (c.finite or [])]


def configs(c, tier):
    dims = dict(c.dims)
    if tier == "thorough":
        dims.update(getattr(c, "deep", None) or {})
    for vals in itertools.product(*dims.values()):
        yield dict(zip(dims, vals)), False
    for d in getattr(c, "extra", None) or []:   # further particular inputs
        yield dict(d), False
    sd = symdims(c)
    if sd:
        for vals in itertools.product(*[[ANYSIZE] if k in sd else v for k, v in c.dims.items()]):
            yield dict(zip(c.dims, vals)), True


def larger(c, prog, seen=None):
    """concrete sizes beyond the default ones, used when there is no proof for all sizes: around the
    constants the code mentions, and powers of two"""
    ks = set()
    todo, seen = [c.fn], set()
    while todo:
        n = todo.pop()
        if n in seen or n not in prog.fns:
            continue
        seen.add(n)
        t = json.dumps(prog.fns[n])
        for x in re.findall(r'"k": "c", "t": \d+, "v": {"i": "(\d+)"}', t):
            if 2 <= int(x) <= 300:
                ks |= {int(x) - 1, int(x), int(x) + 1}
        todo += re.findall(r'"k": "f", "n": "([^"]+)"', t)
    sd = symdims(c)
    top = {d: max([v for v in c.dims[d] if isinstance(v, int)] or [0]) for d in sd}
    vals = sorted(v for v in ks | {8, 16, 32, 64} if v > max(top.values()))[:14]
    if getattr(c, "big", None):
        vals = sorted(set(vals) | set(c.big))
    rest = [[None] if k in sd else v for k, v in c.dims.items()]
    for v in vals:
        for r in itertools.product(*rest):
            yield {k: (v if k in sd else x) for k, x in zip(c.dims, r)}


# ------------------------------------------------------------------ replay drivers
SIZES_GO = """package %s

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
)

// verifOnce is asked by several callers whether a value has not been seen before
type verifOnce struct {
	mu   sync.Mutex
	seen map[string]bool
}

func (o *verifOnce) first(b []byte) bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.seen == nil {
		o.seen = map[string]bool{}
	}
	ok := !o.seen[string(b)]
	o.seen[string(b)] = true
	return ok
}

// verifTogether: what f answers does not depend on the callers at work at the same time
func verifTogether(t *testing.T, reps int, f func(g int) string) {
	t.Helper()
	const n = 8
	one := func(g int) (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint("panic: ", e)
			}
		}()
		return f(g)
	}
	var alone, bad [n]string
	for g := range alone {
		alone[g] = one(g)
	}
	var w sync.WaitGroup
	for g := 0; g < n; g++ {
		w.Add(1)
		go func(g int) {
			defer w.Done()
			for i := 0; i < reps && bad[g] == ""; i++ {
				if s := one(g); s != alone[g] {
					bad[g] = s
				}
			}
		}(g)
	}
	w.Wait()
	for g := range bad {
		if bad[g] != "" {
			t.Fatalf("VERIF-FAIL: caller %%d of %%d at work at the same time gets %%.300q, alone it gets %%.300q", g, n, bad[g], alone[g])
		}
	}
}

// verifSizes: sizes up to max around the constants that occur in the code under test
func verifSizes(max int) []int {
	m := map[int]bool{}
	for _, f := range strings.Split(os.Getenv("VERIF_SIZES"), ",") {
		if c, err := strconv.Atoi(f); err == nil {
			for d := -1; d <= 1; d++ {
				if c+d > 1 && c+d <= max {
					m[c+d] = true
				}
			}
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
"""


def code_constants(ssa, pkgs):
    """integer constants (and powers of two shifted by) in the functions of the packages"""
    ks = set()
    for n, f in ssa["fns"].items():
        base = n.lstrip("(*")
        if base.rsplit(".", 1)[-1] == "init" or not any(base.startswith(p + ".") or base.startswith(p + "/") for p in pkgs):
            continue
        for b in f.get("blocks") or []:
            for i in b["ins"]:
                for x in re.findall(r'"k": "c", "t": \d+, "v": {"i": "(\d+)"}', json.dumps(i)):
                    x = int(x)
                    if 3 <= x <= 1 << 22:
                        ks.add(x)
                    if i["op"] == "binop" and i.get("o") in ("<<", ">>") and 3 <= x <= 22:
                        ks.add(1 << x)
                if i["op"] in ("convert", "binop", "phi") and i.get("t") is not None:
                    # arithmetic in a narrow type wraps around at its size
                    ks |= {"uint8": {256}, "int8": {128, 256}, "uint16": {1 << 16}, "int16": {1 << 15, 1 << 16}}.get(
                        ssa["types"][i["t"]].get("name"), set())
    return sorted(ks)


def run_driver(prop, tier, tmp, seed, ssa=None):
    """[(package, status, text)]: status ok | fail | unavailable"""
    out = []
    for pkg in props.DRIVERS.get(prop, []):
        src = HERE + "/drivers/" + pkg.replace("/", "_") + "_test.go"
        if not os.path.exists(src) or not os.path.isdir(REPO + "/" + pkg):
            out.append((pkg, "unavailable", "no driver"))
            continue
        ov = tmp + "/overlay_%s.json" % pkg.replace("/", "_")
        rep = {REPO + "/" + pkg + "/zz_verif_driver_test.go": src}
        # the repository's own tests are not part of the driver
        for f in os.listdir(REPO + "/" + pkg):
            if f.endswith("_test.go"):
                rep[REPO + "/" + pkg + "/" + f] = ""
        aux = tmp + "/sizes_%s_test.go" % pkg.replace("/", "_")
        open(aux, "w").write(SIZES_GO % re.search(r"^package (\w+)", open(src).read(), re.M).group(1))
        rep[REPO + "/" + pkg + "/zz_verif_sizes_test.go"] = aux
        json.dump({"Replace": rep}, open(ov, "w"))
        consts = code_constants(json.load(open(ssa)), [pkg, "hash"] + props.ALSO.get(pkg, [])) if ssa else []
        env = dict(ENV, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_PROP=prop, VERIF_SIZES=",".join(map(str, consts)))
        limit = {"quick": 420, "thorough": 1800}[tier]
        cmd = "ulimit -v 20000000; exec go test -overlay %s -modfile %s -vet=off -count=1 -timeout %ds -run '^TestVerif%s$' -v ./%s" % (
            ov, tmp + "/go.mod", limit, prop, pkg)
        c0 = resource.getrusage(resource.RUSAGE_CHILDREN)
        r = subprocess.run(["bash", "-c", cmd], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        t = r.stdout
        c1 = resource.getrusage(resource.RUSAGE_CHILDREN)
        cpu = c1.ru_utime + c1.ru_stime - c0.ru_utime - c0.ru_stime
        if "[build failed]" in t or "[setup failed]" in t or ("no tests to run" in t) or ("=== RUN" not in t):
            out.append((pkg, "unavailable", t[-3000:]))
        elif "panic: test timed out" in t and "VERIF-FAIL" not in t and cpu < 0.8 * limit:
            # the machine had no time for it: says nothing about the code
            out.append((pkg, "unavailable", "no verdict: %d s of processor time in %d s" % (cpu, limit)))
        elif r.returncode == 0:
            out.append((pkg, "ok", "\n".join(l for l in t.splitlines() if "VERIF" in l)[-3000:]))
        else:
            out.append((pkg, "fail", t[:6000] + ("\n...\n" + t[-2000:] if len(t) > 8000 else t[6000:])))
    return out


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build_gossa()
        sh(["go", "test", "-count=1", "-run", "^$", "./..."], cwd=REPO)
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    try:
        code = decide(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, t0, tmp):
    g = build_gossa()
    modfile(tmp)
    r = sh([g, REPO])
    if r.returncode != 0:
        print("cannot load /repo: " + r.stderr[-2000:])
        return 2
    ssa = tmp + "/ssa.json"
    open(ssa, "w").write(r.stdout)
    # the driver runs alongside
    q = mp.get_context("fork").SimpleQueue()

    def drv():
        try:
            r = run_driver(prop, tier, tmp, seed, ssa)
            if any(x[1] == "fail" for x in r):
                DRIVER_FAILED.value = time.time()
            q.put(r)
        except Exception as e:
            q.put([("driver", "unavailable", repr(e))])
    dp = mp.get_context("fork").Process(target=drv)
    dp.start()
    deadline = t0 + {"quick": 560, "thorough": 6000}[tier]
    vt0 = time.time()
    verr = ""
    try:
        results, missing, disabled = run_verifier(prop, ssa, tier, deadline)
    except Exception:
        verr = traceback.format_exc()
        results, missing, disabled = [], [], frozenset()
    vwall = time.time() - vt0
    drivers = q.get()
    dp.join()
    return report(prop, tier, seed, t0, results, missing, disabled, drivers, vwall, verr)


def report(prop, tier, seed, t0, results, missing, disabled, drivers, vwall, verr):
    contract = G.get("contract")
    REG = contract.REG if contract else {}
    LEM = contract.LEMMAS if contract else {}

    def is_target(r):
        c = (REG if r["kind"] == "contract" else LEM)[r["name"]]
        return prop in c.props

    failed, undecided, internal = [], [], []
    bounded = []
    for r in results:
        if r["sym"]:
            # the proof for all sizes: where it does not go through, the enumerated sizes decide
            if r["status"] != "ok":
                obs = [o for o in r["obs"] if not o["ok"]]
                bounded.append((r["name"], r["why"] or "not proved: " + "; ".join(o["kind"] + ":" + o["label"] for o in obs[:3])))
            continue
        deciding = is_target(r) and (r["kind"] == "lemma" or exported(r["name"]))
        if r["status"] == "failed":
            obs = [o for o in r["obs"] if not o["ok"]]
            if not deciding:
                internal.append(r["name"])
                continue
            hard = [o for o in obs if o["definite"] and o.get("verdict") != "holds-on-samples"]
            if hard:
                failed.append((r, hard))
            else:
                undecided.append((r["name"], r["dims"], "not proved: " + "; ".join(o["kind"] + ":" + o["label"] for o in obs[:3])))
        elif r["status"] == "undecided":
            if deciding:
                undecided.append((r["name"], r["dims"], r["why"]))
            else:
                internal.append(r["name"])
    for n in missing:
        if exported(n):
            undecided.append((n, {}, "function not found"))
    dfail = [d for d in drivers if d[1] == "fail"]
    dunav = [d for d in drivers if d[1] == "unavailable"]

    allobs = [o for r in results for o in r["obs"]]
    okobs = [o for o in allobs if o["ok"]]
    fns = sorted({r["name"] for r in results if r["kind"] == "contract"})
    per = {}
    for r in results:
        p = per.setdefault(r["name"], {"configurations": 0, "obligations": 0, "discharged": 0, "seconds": 0.0, "undecided": 0})
        p["configurations"] += 1
        p["obligations"] += len(r["obs"])
        p["discharged"] += sum(o["ok"] for o in r["obs"])
        p["seconds"] = round(p["seconds"] + r["wall"], 3)
        p["undecided"] += r["status"] == "undecided"
    for n, p in per.items():
        c = REG.get(n) or LEM.get(n)
        p["scope"] = scope(c, [r for r in results if r["name"] == n])
    externs = sorted({e for r in results for e in r["externs"]})
    kinds = {}
    for o in allobs:
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
    nviol = len(failed) + len(dfail)
    cov = {
        "obligations": len(allobs), "discharged": len(okobs),
        "checker_cmd": "python3-vt check.py %s --tier %s" % (prop, tier),
        "trusted_base": ["go/ssa (golang.org/x/tools) translation of /repo's source", "/verif/engine (symbolic executor, normaliser of field/group terms)",
                         "z3 (python3-vt) for integer and propositional side conditions", "contracts assumed for external functions (see assumptions)"],
        "functions_under_contract": fns,
        "lemmas": sorted({r["name"] for r in results if r["kind"] == "lemma"}),
        "obligations_by_kind": kinds,
        "per_function": per,
        "back_ends": {"term normalisation (field and group algebra, byte strings)": len(okobs),
                      "z3 queries": sum(r["solver"].get("queries", 0) for r in results),
                      "z3 seconds": round(sum(r["solver"].get("time", 0) for r in results), 3)},
        "verifier_seconds": round(vwall, 2),
        "helpers_inlined_because_their_contract_does_not_hold_here": sorted(set(internal)),
        "no_proof_for_all_sizes": [{"what": a, "why": b} for a, b in bounded],
        "undecided": [{"what": a, "configuration": b, "why": c} for a, b, c in undecided][:60],
        "replay_driver": [{"package": d[0], "status": d[1], "log": d[2][-1500:]} for d in drivers],
        "samples": [{k: o[k] for k in ("fn", "kind", "label", "cfg")} for o in okobs[::max(1, len(okobs) // 12)]][:12],
    }
    if verr:
        cov["verifier_error"] = verr[-2000:]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": props.LEVEL.get(prop, "proof"), "coverage": cov,
          "assumptions": assumptions(externs), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)

    for l in props.known(prop):
        print(l)
    print("%s: %d functions under contract, %d obligations, %d discharged, %d undecided configurations, driver %s, %.1fs" % (
        prop, len(fns), len(allobs), len(okobs), len(undecided), ",".join(d[0] + ":" + d[1] for d in drivers) or "none", time.time() - t0))
    for a, b in bounded[:8]:
        print("  bounded only: %s: %s" % (a, b))
    for a, b, c in undecided[:8]:
        print("  undecided: %s %s: %s" % (a, b, c))
    if not failed and not dfail:
        return 0
    os.makedirs(HERE + "/replay", exist_ok=True)
    path = HERE + "/replay/%s.txt" % prop
    with open(path, "w") as f:
        f.write("property %s violated on /repo's current tree\n" % prop)
        for r, obs in failed[:40]:
            for o in obs[:6]:
                f.write("\nFAILED OBLIGATION %s [%s] %s  (%s)\n" % (o["fn"], o["kind"], o["label"], o["cfg"]))
                f.write("  path condition: %s\n  not provable: %s\n  counterexample search: %s\n" % (" ; ".join(o.get("pc", [])), o.get("detail", ""), o.get("verdict", "")))
        for d in dfail:
            f.write("\nREPLAY on the real code (package %s): go test driver %s_test.go, TestVerif%s, seed %d\n%s\n" % (
                d[0], d[0].replace("/", "_"), prop, seed, d[2]))
        if not dfail:
            f.write("\nno failing input found by the replay driver\n")
    for r, obs in failed[:5]:
        print("  failed: %s [%s:%s] %s" % (obs[0]["fn"], obs[0]["kind"], obs[0]["label"], obs[0]["cfg"]))
    for d in dfail:
        for l in [l for l in d[2].splitlines() if "VERIF-FAIL" in l or l.startswith("panic")][:3]:
            print("  replay: " + l.strip())
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if dfail else " no-failing-input-found"))
    return 1


def scope(c, rs):
    if not c.dims:
        return "all inputs"
    sy = [r for r in rs if r["sym"]]
    if sy and all(r["status"] == "ok" for r in sy):
        return "all inputs (all sizes: loops summarised by closed forms proved by induction)"
    if c.finite is not None and set(c.finite) >= set(c.dims):
        return "all inputs (every configuration enumerated)"
    return "bounded: " + ", ".join("%s in %s" % (k, v) for k, v in c.dims.items() if k not in (c.finite or []))


def assumptions(externs):
    import externs as X
    out = list(props.ASSUME)
    for e in externs:
        out.append("assumed contract of external function " + e)
    return out


if __name__ == "__main__":
    main()
