#!/bin/bash
# builds and runs the program beside this file against the diffy in the current directory
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\nname="demo"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[dependencies]\ndiffy={path="%s"}\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/t" timeout 250 cargo run --offline -q
