#!/bin/bash
# check.sh <property id>      decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
# check.sh replay <file>      evaluate the case of a replay file again
# check.sh setup              build, then check the oracle against its mpmath values
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PCHECK_ROOT="$here" CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$here/target" || exit 3
# two checks started together must not build into each other
exec 9>"$here/target/.check.lock" && flock 9
# two builds: with debug assertions and overflow checks, and without them (with fused multiply-add where there is one)
fma=""
grep -qw fma /proc/cpuinfo && fma="-C target-feature=+fma"
build() { (cd "$here/harness" && cargo build --offline "$@"); }
CARGO_TARGET_DIR="$here/target/plain" RUSTFLAGS="$fma" build --profile plain >"$here/target/build-plain.log" 2>&1 &
build --release >"$here/target/build.log" 2>&1 && wait $!
if [ $? != 0 ]; then
    wait
    tail -n 40 "$here/target/build.log" "$here/target/build-plain.log" >&2
    echo "CHECK-ERROR: the harness does not build against /repo" >&2
    exit 3
fi
# run a private copy, so that another check's rebuild cannot replace it mid-run
bin=$(mktemp -d) || exit 3
trap 'rm -f "$bin/pcheck" "$bin/pcheck-plain"; rmdir "$bin"' EXIT
cp "$here/target/release/pcheck" "$bin/pcheck" || exit 3
cp "$here/target/plain/plain/pcheck" "$bin/pcheck-plain" || exit 3
flock -u 9
exec 9>&-
case "${1:-}" in
    setup) "$bin/pcheck" selftest ;;
    replay) p="$bin/pcheck"; grep -qx "build plain" "$2" && p="$bin/pcheck-plain"; "$p" replay "$2" ;;
    list) "$bin/pcheck" list ;;
    C*) PCHECK_PLAIN="$bin/pcheck-plain" "$bin/pcheck" run "$1" ;;
    *) echo "usage: check.sh <id>|replay <file>|setup|list" >&2; exit 3 ;;
esac
exit $?
