#!/bin/bash
# check.sh PROPERTY [quick|thorough]: build the explorer against /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 3
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build() {
    # always compile the crate under test again, whatever the time stamps say
    (cd mc && cargo clean -q --release --offline -p http-box && cargo build -q --release --offline) 2>&1
}
mkdir -p build
exec 9>build/lock
flock 9
if ! out=$(build); then
    # one more attempt with an empty target directory
    (cd mc && cargo clean -q --offline)
    if ! out=$(build); then
        echo "$out" | tail -30
        echo "check.sh: cannot build the explorer"
        exit 3
    fi
fi
cp mc/target/release/mc "build/mc.$$"
flock -u 9
if [ "$id" = setup ]; then
    rm -f "$PWD/build/mc.$$"
    exit 0
fi
limit=840
[ "$tier" = thorough ] && limit=3600
timeout -k 10 "$limit" "build/mc.$$" check "$id" --tier "$tier"
rc=$?
rm -f "$PWD/build/mc.$$"
exit $rc
