#!/bin/bash
# check.sh <ID> [quick|thorough]    decide one property on /repo's current working tree
# check.sh replay <file>            run one saved case
# exit 0: held; exit 1 with a VIOLATION line: broken; anything else: no answer
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" VERIF_START="$(date +%s.%N)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
unset GORACE GODEBUG
replay=""
if [ "${1:-}" = replay ]; then
  replay="$(realpath "$2")"
  id="$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$replay" | head -1)"
else
  id="${1:?property id}"
  [ -n "${2:-}" ] && export VERIF_TIER="$2"
fi
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
case "$id" in
  C01|C02|C03|C04|C05|C08|C09|C29) pkg=codec ;;
  C26) pkg=race ;;
  C[0-3][0-9]) pkg=client ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cd "$ROOT/harness" || exit 2
flags=()
case $pkg in
  client)
    go run ./cmd/instrument -repo /repo -out "$tmp/overlay" >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; exit 2; }
    flags=(-overlay "$tmp/overlay/overlay.json") ;;
  race)
    go run ./cmd/instrument -repo /repo -keep-sync -out "$tmp/overlay" >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; exit 2; }
    flags=(-race -overlay "$tmp/overlay/overlay.json")
    export GORACE="log_path=$tmp/race suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0" ;;
esac
go test -c "${flags[@]}" -o "$tmp/verif.test" "./$pkg" >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; echo "build failed" >&2; exit 2; }
[ -n "$replay" ] && export VERIF_REPLAY="$replay"
[ -z "$replay" ] && rm -f -- "$ROOT/evidence/$id.json" "$ROOT/replays/$id/current.json"
limit=840; [ "$VERIF_TIER" = thorough ] && limit=7200
cd "$tmp" || exit 2
timeout -k 10 $limit "$tmp/verif.test" -test.run "^Test$id\$" -test.timeout 0 >"$tmp/out" 2>"$tmp/err"
rc=$?
grep -av '\[rapid\] draw ' "$tmp/out" | grep -av '^VIOLATION ' | cut -c1-4000 | tail -c 30000
grep -a '^VIOLATION ' "$tmp/out" | cut -c1-1000
cat "$tmp"/race.* 2>/dev/null | head -c 20000 >&2
tail -c 20000 "$tmp/err" >&2
[ $rc -eq 0 ] && exit 0
[ $rc -eq 124 ] && { echo "INCONCLUSIVE property=$id: time limit" >&2; exit 2; }
grep -aq HARNESS-ERROR "$tmp/out" && exit 2
grep -aq "^VIOLATION property=$id " "$tmp/out" && exit 1
# the process died: a violation if the code under test brought it down
cur="$ROOT/replays/$id/current.json"
if [ -f "$cur" ] || [ -n "$replay" ]; then
  if grep -aqE "WARNING: DATA RACE|fatal error: concurrent map|^panic: |fatal error: sync|fatal error: all goroutines|fatal error: (send|receive|close|select)[a-z ]* synctest|stack overflow" "$tmp/err" "$tmp/out" &&
     grep -aq "tinygo-mqtt/mqtt" "$tmp/err" "$tmp/out"; then
    rep="$replay"
    if [ -z "$rep" ]; then rep="$ROOT/replays/$id/crash.json"; cp "$cur" "$rep"; fi
    echo "VIOLATION property=$id replay=$rep"
    exit 1
  fi
fi
echo "no answer: exit status $rc" >&2
exit 2
