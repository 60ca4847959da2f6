#!/bin/bash
# tryseed.sh ID [nocheck]: confirm a planted bug in a scratch copy (builds, tests
# pass, the demonstration tells it from the original), then run its property's
# check against it in /repo and undo it. Development only; no check uses it.
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedXXXX); cp -a /repo "$W/repo"
cd "$W/repo" || exit 2
export GOTOOLCHAIN=local GOPROXY=off
fail() { echo "$ID: $*"; rm -rf "$W"; exit 1; }
mkdir "$W/d"; cp "$S"/* "$W/d/"; rm -f "$W"/d/*.diff "$W"/d/meta.json
bash "$W/d/demo.sh" >"$W/o1" 2>&1 || { tail -20 "$W/o1"; fail "demo fails on the original"; }
git apply "$S/patch.diff" || fail "does not apply"
go build ./... >"$W/ob" 2>&1 || { cat "$W/ob"; fail "does not build"; }
go test ./... >"$W/ot" 2>&1; grep -v "build failed\|^FAIL$" "$W/ot" | grep -q "^--- FAIL\|^FAIL\|panic:" && { grep FAIL "$W/ot" | head; fail "existing tests fail"; }
bash "$W/d/demo.sh" >"$W/o2" 2>&1 && fail "demo passes with the bug"
echo "$ID: bug confirmed ($(grep -m1 -o 'demo_test.go:[0-9]*:.*\|panic: .*' "$W/o2" | cut -c1-150))"
rm -rf "$W"
[ "$2" = nocheck ] && exit 0
exec 9>/tmp/seedlock; flock 9
cd /repo && git apply "$S/patch.diff" || exit 2
for p in ${2:-$P}; do
  ( cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $p >/tmp/seed.$ID.$p 2>&1 9>&- ); r=$?
  if [ $r = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seed.$ID.$p; then echo "$ID: $p CAUGHT: $(grep -m1 'failed after\|panic after\|WATCHDOG' /tmp/seed.$ID.$p | sed 's/.*rapid. //' | cut -c1-160)"; else echo "$ID: $p MISSED (exit $r)"; tail -3 /tmp/seed.$ID.$p; fi
done
git -C /repo checkout -- .
git -C /verif clean -fdq replays 2>/dev/null
