#!/bin/sh
# The checks build everything they need themselves; this only shows early that the toolchain is there.
cd "$(dirname "$0")" && d=$(mktemp -d) && javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" java/*.java; r=$?; rm -rf "$d"; exit $r
