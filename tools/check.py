#!/usr/bin/env python3
"""check.py CNN [quick|thorough]

Decides one property of /repo's current working tree.

1. gocon (the deductive verifier in /verif/gocon) generates the proof
   obligations of every contract of the property from /repo's source and has
   them discharged by z3 / cvc5.
2. The bounded stand-in (/verif/driver) runs the same property on the compiled
   code.  It stands in for the functions listed in tools/bounded.json, which
   are outside the verifier's reach, and it looks for an input that shows the
   failure of an obligation on the real code.

exit 0: every obligation discharged and the stand-in found nothing
exit 1: VIOLATION line
"""
import json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from claims import LEVEL
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BIN = os.path.join(ROOT, "bin")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T0 = time.time()
EVID = os.path.join(ROOT, "evidence")

env = dict(os.environ)
env.update(HOME=env.get("HOME", "/root"),
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE=env.get("GOCACHE", "/root/.cache/go-build"))


def say(*a):
    print(*a, flush=True)


def run(cmd, cwd, timeout, extra=None):
    e = dict(env)
    e.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out + "\n[stopped after %d s]" % timeout


def build_verifier():
    os.makedirs(BIN, exist_ok=True)
    rc, out = run(["go", "build", "-o", os.path.join(BIN, "gocon"), "."], os.path.join(ROOT, "gocon"), 400,
                  {"GOFLAGS": "-mod=vendor"})
    if rc:
        say("cannot build the verifier:", out)
        sys.exit(3)


def verify(scratch, only=None, scale=1, limit=400):
    """Runs gocon: several processes that share the contracts among them."""
    n = 1 if only else 3
    claims = os.path.join(scratch, "claims%d" % scale)
    os.makedirs(claims, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        js = os.path.join(scratch, "gocon%d_%d_%s.json" % (scale, i, only or ""))
        cmd = [os.path.join(BIN, "gocon"), "-repo", REPO, "-contracts", os.path.join(ROOT, "contracts"),
               "-prop", PROP, "-json", js]
        if only:
            cmd += ["-only", only]
        else:
            cmd += ["-claim", claims]
        rc, out = run(cmd, scratch, limit, {"GOCON_SCALE": str(scale), "GOFLAGS": "-mod=mod", "TMPDIR": scratch})
        try:
            return rc, out, json.load(open(js))
        except Exception:
            return rc, out, None
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, range(n)))
    rc = max(r[0] for r in rs)
    out = "\n".join(r[1] for r in rs)
    if any(r[2] is None for r in rs):
        return rc or 1, out, None
    res = rs[0][2]
    for _, _, r in rs[1:]:
        for k in ("obligations", "proved", "solver_seconds", "queries"):
            res[k] = (res.get(k) or 0) + (r.get(k) or 0)
        res["contracts"] = (res.get("contracts") or []) + (r.get("contracts") or [])
        res["failed"] = (res.get("failed") or []) + (r.get("failed") or [])
        res["assumptions"] = sorted(set(res.get("assumptions") or []) | set(r.get("assumptions") or []))
        by = res.get("by_solver") or {}
        for k, v in (r.get("by_solver") or {}).items():
            by[k] = by.get(k, 0) + v
        res["by_solver"] = by
        res["error"] = res.get("error") or r.get("error") or ""
    return rc, out, res


def build_driver(scratch):
    d = os.path.join(scratch, "driver")
    rc, out = run(["bash", os.path.join(ROOT, "driver/build.sh"), d, REPO], scratch, 300, {"GOFLAGS": "-mod=mod", "TMPDIR": scratch})
    return (d, "") if rc == 0 else (None, out)


def search(d, scratch, secs, procs, salt):
    """Runs the stand-in; gives (failing output or None, cases)."""
    ps = []
    for i in range(procs):
        s = os.path.join(scratch, "io%d_%d" % (salt, i))
        os.makedirs(s, exist_ok=True)
        e = dict(env)
        e.update(ZZ_SCRATCH=s, TMPDIR=s, GOGC="200")
        f = open(os.path.join(s, "out.txt"), "w+", errors="replace")
        ps.append((subprocess.Popen([d, "-prop", PROP, "-seed", str(SEED * 97 + salt * 1009 + i), "-time", "%ds" % secs],
                                    cwd=s, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True), f))
    found, cases, trouble = None, 0, ""
    end = time.time() + secs + 60
    for p, f in ps:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            trouble = "stand-in stopped"
        f.seek(0)
        o = f.read()
        f.close()
        if p.returncode == 1 and "FAILING INPUT" in o:
            o = o[o.index("FAILING INPUT"):]
            if found is None or len(o) < len(found):
                found = o
        elif p.returncode == 0:
            try:
                cases += int(o.split("in ")[1].split(" cases")[0])
            except Exception:
                pass
        else:
            trouble = "stand-in exit %s: %s" % (p.returncode, o[-2000:])
            if "fatal error" in o or "panic" in o or "concurrent map" in o or "signal" in o:
                # the code under test brought the process down
                found = found or o[:4000]
    return found, cases, trouble


def main():
    scratch = tempfile.mkdtemp(prefix="check%s_" % PROP)
    try:
        return decide(scratch)
    finally:
        subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


def decide(scratch):
    os.makedirs(EVID, exist_ok=True)
    thorough = TIER == "thorough"
    bounded = json.load(open(os.path.join(ROOT, "tools/bounded.json"))).get(PROP, {})
    build_verifier()
    rc, out, res = verify(scratch, limit=420)
    failed = []
    if res is None:
        failed.append({"name": PROP + ": verifier", "status": "no result", "detail": out[-3000:]})
    else:
        failed = list(res.get("failed") or [])
        if res.get("obligations", 0) == 0 or not res.get("contracts"):
            failed.append({"name": PROP + ": vacuous", "status": "no obligations", "detail": out[-2000:]})
        elif rc != 0 and not failed:
            failed.append({"name": PROP + ": verifier", "status": "exit %d" % rc, "detail": out[-2000:]})
    d, err = build_driver(scratch)
    found, cases, trouble = None, 0, ""
    if d is None:
        trouble = "the stand-in does not build: " + err[-1500:]
    else:
        secs = bounded.get("seconds", 8)
        if thorough:
            secs = 180
        if failed:
            secs = max(secs, 45)
        found, cases, trouble = search(d, scratch, secs, 6, 0)
    if failed and not found:
        # before giving up: once more, with more time for the solvers and the search
        names = sorted({f["name"].split(":")[0] for f in failed})
        left = 780 - (time.time() - T0)
        if all(f.get("status") in ("not proved", "unknown", "timeout") for f in failed) and left > 200 and len(names) <= 6:
            still = []
            for nm in names:
                left = 700 - (time.time() - T0)
                if left < 60:
                    still += [f for f in failed if f["name"].split(":")[0] == nm]
                    continue
                _, o2, r2 = verify(scratch, only=nm, scale=4, limit=min(left, 240))
                if r2 is None:
                    still += [f for f in failed if f["name"].split(":")[0] == nm]
                else:
                    still += r2.get("failed") or []
            if not still and res is not None:
                res["proved"] = res["obligations"]
            failed = still
        if failed and d is not None:
            left = 840 - (time.time() - T0)
            if left > 50:
                found, c2, trouble = search(d, scratch, int(min(90, left - 40)), 8, 1)
                cases += c2
    bad = bool(failed or found)
    replay = os.path.join(EVID, "%s.replay.txt" % PROP)
    if bad:
        with open(replay, "w") as f:
            f.write("property %s\n" % PROP)
            if found:
                f.write("\nfailing input, observed on the compiled code of %s\n" % REPO)
                f.write("replay: bash driver/build.sh OUT && ZZ_SCRATCH=$(mktemp -d) OUT -prop %s -case N  (N is the case below)\n\n" % PROP)
                f.write(found + "\n")
            for x in failed:
                f.write("\nfailed obligation: %s\nstatus: %s\nverifier output:\n%s\n" % (x.get("name"), x.get("status"), x.get("detail")))
            f.write("\nverifier log:\n" + out[-4000:] + "\n")
    elif os.path.exists(replay):
        os.remove(replay)
    r = res or {}
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": LEVEL.get(PROP, "proof"),
        "coverage": {
            "explanation": "%d of %d proof obligations of the contracts listed below were discharged on this run; what those contracts do not reach was run on %d generated inputs (bounded_stand_in)." % (r.get("proved", 0), r.get("obligations", 0), cases),
            "obligations": r.get("obligations", 0),
            "discharged": r.get("proved", 0),
            "checker_cmd": "bin/gocon -repo /repo -contracts /verif/contracts -prop " + PROP,
            "trusted_base": ["gocon: obligations generated from go/ssa of /repo's current source (golang.org/x/tools/go/ssa)",
                             "z3 4.8.12, z3-new, cvc5 1.1.2"] + [a for a in r.get("assumptions", [])],
            "functions_under_contract": [c.get("target") or c.get("name") for c in r.get("contracts", [])],
            "contracts": [{"name": c.get("name"), "obligations": c.get("obligations"), "seconds": round(c.get("seconds", 0), 2)} for c in r.get("contracts", [])],
            "discharged_by": r.get("by_solver", {}),
            "solver_seconds": r.get("solver_seconds", 0),
            "solver_queries": r.get("queries", 0),
            "bounded_stand_in": {"cases": cases, "label": "bounded, not counted as proved",
                                 "functions": bounded.get("functions", []), "bound": bounded.get("bound", "")},
            "evaluations": cases,
        },
        "assumptions": r.get("assumptions", []) + bounded.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": 1 if bad else 0,
    }
    json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)
    say("%s: %d contracts, %d of %d obligations discharged; bounded stand-in: %d cases; %.0f s" % (
        PROP, len(r.get("contracts", [])), r.get("proved", 0), r.get("obligations", 0), cases, time.time() - T0))
    if trouble:
        say("note:", trouble)
    if not bad:
        return 0
    for x in failed[:10]:
        say("failed obligation:", x.get("name"), "(%s)" % x.get("status"))
    if found:
        say(found[:3000])
        say("VIOLATION property=%s replay=%s" % (PROP, replay))
    else:
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, replay))
    return 1


sys.exit(main())
