#!/bin/bash
# Demonstration: builds a scratch copy of the tree in the working directory and, beside it, a small
# crate that runs the on-chain program in process. Everything stays inside the scratch copy.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W"/repo "$W"/demo/src "$W"/demo/tests
cp -a Cargo.toml Cargo.lock programs "$W"/repo/ || exit 2
cp "$D"/demo.toml "$W"/demo/Cargo.toml
cp "$D"/demo.lock "$W"/demo/Cargo.lock
mkdir "$W"/demo/tests/chain
cp "$D"/chain.rs "$W"/demo/tests/chain/mod.rs
cp "$D"/demo.rs "$W"/demo/tests/demo.rs
echo > "$W"/demo/src/lib.rs
find "$W"/repo/programs -name '*.rs' -exec touch {} +
cd "$W"/demo || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target} cargo test --offline --test demo -- --test-threads 1
