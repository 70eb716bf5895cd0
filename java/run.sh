#!/bin/bash
# usage: run.sh PROPERTY WORKDIR [-replay FILE]: compiles the contracts of /repo the property
# names against the simulated chain and runs its explorer.
prop=$1; work=$2; shift 2
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); repo=${VERIF_REPO:-/repo}
mkdir -p "$work/core" "$work/proc" "$work/contracts" "$work/gen"
fail() { echo "BUILD FAILED property=$prop"; cat "$work/build.log"; exit 2; }
javac -nowarn -proc:none -d "$work/core" $(find "$here/api" "$here/sim" -name '*.java') "$here"/props/$prop.java $(sed -n 's#^// with: ##p' "$here/props/$prop.java" | tr ' ' '\n' | sed "s#^#$here/props/#") >"$work/build.log" 2>&1 &
a=$!
javac -nowarn -proc:none -d "$work/proc" "$here/proc/Gen.java" >"$work/build2.log" 2>&1 || { cat "$work/build2.log" >>"$work/build.log"; wait $a; fail; }
wait $a || fail
src=
for m in $(sed -n 's#^// modules: ##p' "$here/props/$prop.java"); do src="$src $(find "$repo/javascore/$m/src/main/java" -name '*.java')"; done
javac -nowarn -encoding UTF-8 -parameters -cp "$work/core" -processorpath "$work/proc" -processor Gen -s "$work/gen" -d "$work/contracts" $src >"$work/build.log" 2>&1 || fail
known=$(python3 -c "
import json,sys
for k in json.load(open('$here/../known-findings.json')):
    if k['property']=='$prop' and k['status']=='known': print(k['key']+'\t'+k['what'])")
java -Xmx12g -Xss4m -XX:+UseParallelGC -Dcontracts="$work/contracts" -Dknown="$known" -cp "$work/core" "$prop" "$@"
