#!/usr/bin/env python3
"""mkseed.py SPEC.py — builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
SPEC.py defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], PKG, TEST (go test source, TestDemo)."""
import sys, os, subprocess, json, shutil, tempfile, runpy
env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
d=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$d/demo_test.go.txt" > "$work/overlay.json"
export TMPDIR=$work
timeout 250 go test -vet=off -count=1 -overlay "$work/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for spec in sys.argv[1:]:
    m = runpy.run_path(spec)
    out = "/verif/seeded/" + m["ID"]
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/demo.sh", "w").write(m.get("DEMO") or DEMO % {"pkg": m["PKG"]}); os.chmod(out + "/demo.sh", 0o755)
    if "TEST" in m: open(out + "/demo_test.go.txt", "w").write(m["TEST"])
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git clone -q /repo {w}/repo", "/")
        r = w + "/repo"
        for f, a, b in m["EDITS"]:
            s = open(f"{r}/{f}").read()
            assert s.count(a) == 1, (m["ID"], f, s.count(a), a)
            open(f"{r}/{f}", "w").write(s.replace(a, b))
        open(out + "/patch.diff", "w").write(sh("git diff", r).stdout)
        b = sh("go build ./...", r); assert b.returncode == 0, b.stdout
        bad = sh(f"bash {out}/demo.sh", r)
        sh("git stash -q", r)
        good = sh(f"bash {out}/demo.sh", r)
        print(m["ID"], "clean:", good.returncode, "patched:", bad.returncode)
        if good.returncode != 0: print(good.stdout[-1500:])
        if bad.returncode == 0: print(bad.stdout[-600:])
        elif "-v" in os.environ.get("V", ""): print(bad.stdout[-800:])
        sh("git stash pop", r)
        t = sh("grep -n 'go test' /opt/vp/test.sh | head -3; go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files'", r)
        fails = [l for l in t.stdout.splitlines() if l.startswith("--- FAIL") or "build failed" in l]
        print("   tests:", fails)
    finally:
        shutil.rmtree(w, ignore_errors=True)
