#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and stores it in /verif/seeded/<id>/.
usage: mkseed.py SPEC.py...   A spec sets: id, prop, edits=[(file, old, new)], pkg, demo (Go test), needs, breaks."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestDemo$' ./%s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
base = {t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])} if False else None
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    d = "/verif/seeded/" + s["id"]
    tmp = tempfile.mkdtemp(prefix="seed")
    wt = tmp + "/repo"
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        os.makedirs(d, exist_ok=True)
        pkg = s.get("pkg", ".")
        open(d + "/demo.sh", "w").write(DEMO % (pkg, pkg))
        open(d + "/demo_test.go.txt", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = sh("bash %s/demo.sh" % d, wt)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED", r.stdout[-1500:], r.stderr[-500:]); ok = False
        for f, old, new in s["edits"]:
            t = open(wt + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old[:60]); ok = False; continue
            open(wt + "/" + f, "w").write(t.replace(old, new))
            for line in old.splitlines():
                pass
        r = sh("git diff", wt)
        open(d + "/patch.diff", "w").write(r.stdout)
        # the changed lines have to be lines of the original repository
        import re
        for f in {e[0] for e in s["edits"]}:
            bl = sh("git blame -s HEAD -- " + f, wt).stdout.splitlines()
            dl = sh("git diff -U0 -- " + f, wt).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dl, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for k in range(a, a + n):
                    if not bl[k-1].startswith("^b04bd6b"):
                        print(s["id"], "NOTE changes a line of a fix commit:", f, k)
        r = sh("gofmt -l .; go build ./... && go vet ./model ./format >/dev/null 2>&1; go test -vet=off -count=1 ./...", wt)
        if "FAIL" in r.stdout or r.returncode:
            print(s["id"], "TESTS FAIL", r.stdout[-1500:], r.stderr[-500:]); ok = False
        r = sh("bash %s/demo.sh" % d, wt)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES PATCHED"); ok = False
        elif "DEMO" not in r.stdout:
            print(s["id"], "demo failed for another reason?", r.stdout[-600:], r.stderr[-300:])
        print(s["id"], "ok" if ok else "BAD")
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
