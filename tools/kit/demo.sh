#!/bin/bash
# Builds Umpire's host core with demo.cpp in a scratch folder and runs it there.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cmake -S "$here" -B "$w" -G Ninja >"$w/log" 2>&1 && ninja -C "$w" >"$w/log" 2>&1 || { tail -30 "$w/log"; echo "demo does not build"; exit 3; }
mkdir "$w/run" && cd "$w/run" && timeout 120 "$w/demo"
rc=$?
echo "demo rc=$rc"
exit $rc
