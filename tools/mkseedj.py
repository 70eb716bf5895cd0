#!/usr/bin/env python3
"""mkseedj.py SPEC.py... — builds seeded/<id>/ for a bug in javascore from a spec and confirms it in a scratch clone of /repo.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MODULES, optionally WITH (helpers from java/props), DEMO (source of class Demo: main exits nonzero when the property is broken)."""
import sys, os, subprocess, json, shutil, tempfile, runpy
SH = '''#!/bin/bash
# exit 0 when the property holds in this history, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/core" "$work/proc" "$work/gen" "$work/contracts"
javac -nowarn -proc:none -d "$work/core" $(find "$d/api" "$d/sim" -name '*.java') "$d"/*.java || exit 3
javac -nowarn -proc:none -d "$work/proc" "$d/proc/Gen.java" || exit 3
src=
for m in %s; do src="$src $(find "$PWD/javascore/$m/src/main/java" -name '*.java')"; done
javac -nowarn -encoding UTF-8 -parameters -cp "$work/core" -processorpath "$work/proc" -processor Gen -s "$work/gen" -d "$work/contracts" $src || exit 3
timeout 200 java -Xss4m -Dcontracts="$work/contracts" -cp "$work/core" Demo
'''
J = os.environ.get("JAVA_DIR", "/verif/java"); OUT = os.environ.get("SEED_DIR", "/verif/seeded")
def sh(cmd, cwd): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for spec in sys.argv[1:]:
    m = runpy.run_path(spec); out = OUT + "/" + m["ID"]; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(out + "/demo.sh", "w").write(SH % m["MODULES"]); os.chmod(out + "/demo.sh", 0o755); open(out + "/Demo.java", "w").write(m["DEMO"])
    for x in m.get("WITH", []): shutil.copy(J + "/props/" + x, out)
    for x in ("api", "sim", "proc"): shutil.copytree(J + "/" + x, out + "/" + x)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git clone -q /repo {w}/repo", "/"); r = w + "/repo"
        good = sh(f"bash {out}/demo.sh", r)
        for f, a, b in m["EDITS"]:
            s = open(f"{r}/{f}").read(); assert s.count(a) == 1, (m["ID"], f, s.count(a), a); open(f"{r}/{f}", "w").write(s.replace(a, b))
        open(out + "/patch.diff", "w").write(sh("git diff", r).stdout)
        bad = sh(f"bash {out}/demo.sh", r)
        print(m["ID"], "clean:", good.returncode, "patched:", bad.returncode, bad.stdout[-300:].strip().replace("\n", " | "))
        if good.returncode: print(good.stdout[-2500:])
    finally: shutil.rmtree(w, ignore_errors=True)
