#!/bin/bash
# replay.sh FILE   runs the execution a replay file describes against /repo's current tree; exit 1 if the violation shows again
V=$(cd "$(dirname "$0")" && pwd)
F=$(realpath "${1:?replay file}")
bash "$V/build.sh" sim stream cli hooked units frames state elements coeffs || exit 3
S=$(mktemp -d /tmp/av1enc-replay.XXXXXX)
trap 'rm -rf "$S"' EXIT
SIM_BUILD="$V/build" "$V/build/bin/sim-checked" replay "$F" "$S"
