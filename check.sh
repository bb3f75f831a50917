#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE           re-run a recorded failure
# check.sh list                  list the properties and their parts
# check.sh build                 build only
set -u
ulimit -v 24000000 2>/dev/null
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
mkdir -p target replays evidence
log=target/build.log.$$
(
    # one build at a time; diffy is always rebuilt, whatever the time stamps in /repo say
    flock 9
    cd harness || exit 2
    cargo clean -q --release --offline -p diffy
    cargo build -q --release --offline
) 9>target/.build.lock >"$log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
    cat "$log" >&2
    rm -f "$PWD/$log"
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$PWD/$log"
case "${1:-list}" in
    build) exit 0 ;;
    list) exec target/release/vcheck-diffy list ;;
    # a case that does not come to an end is stopped
    replay) ulimit -S -t 300; exec target/release/vcheck-diffy replay "$2" ;;
    *) exec target/release/vcheck-diffy run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
