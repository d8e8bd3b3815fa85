#!/bin/bash
# Run in the repository. Exit 0 if everything is as it should be.
here="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
repo="$PWD"
export HOME="$T/home"; mkdir -p "$HOME"
bash "$here/build.sh" "$T/b" ${MAIN:-} > "$T/log" 2>&1 || { cat "$T/log"; exit 9; }
bant="$T/b/prog"
mkdir -p "$T/ws"; cd "$T/ws"; touch MODULE.bazel
fail() { echo "FAILED: $*"; exit 1; }
