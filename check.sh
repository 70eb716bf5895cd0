#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [-replay FILE]
# Builds the property's explorer from /repo's working tree and runs it.
prop=${1:?property}; tier=${2:-quick}; shift 2
export VERIF_HOME; VERIF_HOME=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export VERIF_CHECK_TIER=$tier
work=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
if [ -e "$VERIF_HOME/java/props/$prop.java" ]; then
  bash "$VERIF_HOME/java/run.sh" "$prop" "$work" "$@"; exit $?
fi
# the harness module is built from a scratch copy, so that nothing is written here
cp -r "$VERIF_HOME/harness" "$work/harness" || exit 3
cd "$work/harness" || exit 3
lc=$(echo "$prop" | tr 'A-Z' 'a-z')
built=
if [ -e "cmd/$lc/instrument" ]; then
  # the packages named there are built from instrumented copies (scheduling points at
  # statements); when that does not compile, from the files as they are
  repo=$(go list -m -f '{{.Dir}}' github.com/icon-project/btp)
  for how in full plain; do
    mkdir -p "$work/$how"
    if go run ./cmd/instr "$repo" "$work/$how" $how $(cat "cmd/$lc/instrument") >"$work/build.log" 2>&1 &&
       go build -tags verifpt -overlay "$work/$how/overlay.json" -o "$work/bin" "./cmd/$lc" >"$work/build.log" 2>&1; then
      built=1; break
    fi
  done
fi
if [ -z "$built" ] && ! go build -o "$work/bin" "./cmd/$lc" >"$work/build.log" 2>&1; then
  echo "BUILD FAILED property=$prop"; cat "$work/build.log"; exit 2
fi
if [ -e "cmd/$lc/needs_relay" ]; then
  export VERIF_RELAY="$work/relay"
  if ! go build -o "$VERIF_RELAY" github.com/icon-project/btp/cmd/relay >"$work/build.log" 2>&1; then
    echo "BUILD FAILED relay"; cat "$work/build.log"; exit 2
  fi
fi
"$work/bin" "$@"
exit $?
