#!/bin/bash
# Demonstration: builds a scratch copy of the tree in the working directory with demo.rs as an
# extra test, and runs that test. Everything stays inside the scratch copy.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp -a Cargo.toml Cargo.lock programs "$W"/ || exit 2
T=$W/programs/hmmcl-sandbox/tests
cp "$D"/demo.rs "$T"/seeded_demo.rs
find "$W"/programs -name '*.rs' -exec touch {} +
cd "$W" || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target} cargo test --offline -p hmmcl-sandbox --test seeded_demo -- --test-threads 1
