#!/bin/bash
# run.sh PROPERTY TIER   one check: build what it needs from /repo, search, write evidence. Exit 0/1; anything else is an error.
V=$(cd "$(dirname "$0")" && pwd)
P=${1:?property} T=${2:-quick}
mkdir -p "$V/build"
exec 9> "$V/build/lock"
flock 9
case $P in
    C08|C09|C10|C11|C12) need="sim stream" ;;
    C13|C20) need="sim cli units" ;;
    C21) need="sim cli frames" ;;
    C22) need="sim cli state" ;;
    C23) need="sim cli elements stream" ;;
    C24) need="sim cli coeffs stream" ;;
    C14) need="sim cli hooked" ;;
    *) need="sim cli" ;;
esac
bash "$V/build.sh" $need 9>&- || exit 3
base=/dev/shm; [ -w $base ] && [ "$(df --output=avail -k $base | tail -1)" -gt 2000000 ] || base=/tmp
S=$(mktemp -d "$base/av1enc-sim.XXXXXX")
trap 'rm -rf "$S"' EXIT
export SIM_BUILD="$V/build" SIM_VERIF="$V"
"$V/build/bin/sim-checked" run "$P" "$T" "${VERIF_SEED:-1}" "$S" 9>&-
