#!/bin/sh
# Runs with cwd /repo. Builds main.rs beside this file against the crates in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp "$here/Cargo.lock" "$d/"
sed "s#/repo/#$repo/#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d"
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" timeout 280 cargo run --offline -q
