#!/bin/bash
# tryseed.sh ID [PROPERTY] — applies a planted bug to /repo, runs the property's quick check, undoes it.
id=$1; d=/verif/seeded/$id
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $d/patch.diff || exit 9
out=$(bash /verif/check.sh $p quick 2>&1); rc=$?
echo "$id $p rc=$rc $(echo "$out" | grep -m2 '^violated' | tr '\n' ' ' | cut -c1-200)"
[ $rc = 1 ] || echo "$out" | tail -3 | cut -c1-300
