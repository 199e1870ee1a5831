#!/bin/bash
# check.sh ID [tier]: builds the simulator against /repo's current tree and runs
# one property's check. Exit 0: held; 1: violated; 2: no answer.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && { here=$PWD; . /opt/vp/env.sh >/dev/null 2>&1; cd "$here" || exit 2; }
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$PWD/target"
[ -n "$2" ] && export VERIF_TIER="$2"
if ! cargo build --release --offline --locked >/tmp/kyber-sim-build.$$ 2>&1; then
    if ! cargo build --release --offline >/tmp/kyber-sim-build.$$ 2>&1; then
        tail -40 /tmp/kyber-sim-build.$$ >&2
        rm -f /tmp/kyber-sim-build.$$
        echo "HARNESS-ERROR the simulator does not build against this tree" >&2
        exit 2
    fi
fi
rm -f /tmp/kyber-sim-build.$$
[ "$1" = build ] && exit 0
exec ./target/release/kyber-sim check "$1"
