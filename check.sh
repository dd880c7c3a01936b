#!/bin/bash
# check.sh <property id> [quick|thorough] [args of the explorer]
# Builds the explorer of one property against /repo's working tree, with and without debug assertions and overflow
# checks, and runs both.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
set -u
id=${1:?property id}; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_TIER=$tier
bin=$(echo "$id" | tr 'A-Z' 'a-z')
case $id in
  C22|C23) exec "$here/$bin.sh" "$tier" "$@" ;;
esac
case $id in
  C01|C02|C03) opt=0 ;;
  *) opt=1 ;;
esac
export CARGO_PROFILE_RELEASE_OPT_LEVEL=$opt
cd "$here/mc" || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export MC_SUMMARY=$tmp/summary
build() { # target directory, debug assertions
  CARGO_TARGET_DIR=$here/mc/target/$1 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=$2 CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=$2 \
    cargo build --quiet --release --offline --bin "$bin" >"$tmp/log.$1" 2>&1
}
build "o$opt" true & first=$!
build "r$opt" false & second=$!
wait $first; a=$?
wait $second; b=$?
if [ $a != 0 ] || [ $b != 0 ]; then
  # The library itself compiles but does not offer (with these bounds) an operation that the property speaks of:
  # the property is broken at every call of it. Anything else is no answer.
  log=$tmp/log.o$opt; [ $a != 0 ] || log=$tmp/log.r$opt
  echo "build of the explorer failed:"; grep -A14 '^error' "$log" | head -60
  if grep -q '^error\[E' "$log" && ! grep -q '^error: could not compile `vecmat`' "$log" &&
     CARGO_TARGET_DIR=$here/mc/target/o$opt CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true \
       cargo build --quiet --release --offline --lib >/dev/null 2>&1; then
    python3 "$here/tools/build_violation.py" "$id" "$tier" "$log"
    exit 1
  fi
  exit 2
fi
left=2; given=${MC_DEADLINE:-}
for d in "o$opt" "r$opt"; do
  # on a slow machine both explorations must still end within the time a quick check has
  if [ "$tier" = quick ] && [ -z "$given" ]; then export MC_DEADLINE=$(( (790 - SECONDS) / left )); fi
  left=1
  "$here/mc/target/$d/release/$bin" "$tier" "$@"; rc=$?
  [ $rc = 0 ] || exit $rc
done
exit 0
