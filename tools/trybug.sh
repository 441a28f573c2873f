#!/bin/bash
# trybug.sh ID [PROP...]: works on a copy of /repo: demo without and with the patch of seeded/ID, existing tests
# with it, then the checks (by default the one of its property). NOTEST=1 leaves out the tests, NOCHECK=1 the checks.
V=$(dirname "$(dirname "$(readlink -f "$0")")"); ID=$1; shift
B=$V/seeded/$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
W=$(mktemp -d /tmp/trybug.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
mkdir "$W/repo"
git -C /repo archive HEAD | tar -x -C "$W/repo"
(cd "$W/repo" && timeout 300 bash "$B/demo.sh" >"$W/demo0" 2>&1); D0=$?
(cd "$W/repo" && git init -q . && git apply "$B/patch.diff") || exit 9
T=-
[ -n "$NOTEST" ] || T=$(bash "$V/tools/runtests.sh" "$W/repo")
(cd "$W/repo" && timeout 300 bash "$B/demo.sh" >"$W/demo1" 2>&1); D1=$?
echo "$ID demo: clean=$D0 patched=$D1 tests: $T"
[ $D1 = 0 ] && tail -3 "$W/demo1"
[ -n "$NOCHECK" ] && P=
for p in $P; do
  s=$(date +%s)
  (cd "$V" && VERIF_REPO=$W/repo VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check.sh $p >"$W/$p" 2>&1); r=$?
  echo "  $p exit=$r $(( $(date +%s)-s ))s $(grep -m1 -B1 VIOLATION "$W/$p" | head -1 | cut -c1-150)"
  [ $r -gt 1 ] && tail -3 "$W/$p"
done
