#!/bin/bash
# builds the MIR driver (offline) and checks that it can dump the current tree
set -e
cd "$(dirname "$0")"
mkdir -p .cache evidence
d=$(mktemp -d .cache/setup.XXXX)
trap 'rm -rf "$PWD/$d"' EXIT
./build_mir.sh "$d"
