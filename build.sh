#!/bin/bash
# build.sh WHAT...   WHAT: cli hooked units frames state elements coeffs stream sim   Builds into /verif/build from /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
B=$V/build
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$B/bin" "$B/log"
# no Cargo.lock is committed in /repo (it is ignored there): use the versions that were fetched
[ -f /repo/Cargo.lock ] || cp "$V/repo-Cargo.lock" /repo/Cargo.lock
# cargo goes by modification times: make it look at the crate again even if files were replaced by older ones
touch -c /repo/src/lib.rs /repo/src/main.rs

put() { # put FROM NAME: replace the file only when done, so that a running process keeps its own
    cp "$1" "$B/bin/.$2.tmp" && mv -f "$B/bin/.$2.tmp" "$B/bin/$2"
}
b_shim() { gcc -O2 -Wall -shared -fPIC -o "$B/simio.so" "$V/shim/simio.c" -ldl && put "$B/simio.so" simio.so; }
b_dev() { cargo build --offline --manifest-path /repo/Cargo.toml --bin av1enc --target-dir "$B/t-dev" && put "$B/t-dev/debug/av1enc" av1enc-dev; }
b_release() { cargo build --release --offline --manifest-path /repo/Cargo.toml --bin av1enc --target-dir "$B/t-release" && put "$B/t-release/release/av1enc" av1enc-release; }
b_hooked() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path /repo/Cargo.toml --bin av1enc --target-dir "$B/t-hooked" && put "$B/t-hooked/debug/av1enc" av1enc-hooked; }
b_units() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path "$V/units/Cargo.toml" --target-dir "$B/t-units" && put "$B/t-units/debug/units" units; }
b_frames() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path "$V/frames/Cargo.toml" --target-dir "$B/t-frames" && put "$B/t-frames/debug/frames" frames; }
b_state() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path "$V/state/Cargo.toml" --target-dir "$B/t-state" && put "$B/t-state/debug/state" state; }
b_elements() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path "$V/elements/Cargo.toml" --target-dir "$B/t-elements" && put "$B/t-elements/debug/elements" elements; }
b_coeffs() { RUSTFLAGS="--cfg av1enc_sim" cargo build --offline --manifest-path "$V/coeffs/Cargo.toml" --target-dir "$B/t-coeffs" && put "$B/t-coeffs/debug/coeffs" coeffs; }
b_sim() { cargo build --profile checked --offline --manifest-path "$V/sim/Cargo.toml" --target-dir "$B/t-sim" && put "$B/t-sim/checked/sim" sim-checked; }
b_simrel() { cargo build --release --offline --manifest-path "$V/sim/Cargo.toml" --target-dir "$B/t-simrel" && put "$B/t-simrel/release/sim" sim-release; }

declare -A pid
start() { ( "b_$1" ) > "$B/log/$1.log" 2>&1 & pid[$1]=$!; }
for w in "$@"; do
    case $w in
        sim) start sim ;;
        stream) start simrel ;;
        cli) start shim; start dev; start release ;;
        hooked) start hooked ;;
        units) rm -f "$B/bin/units"; start units ;;
        frames) rm -f "$B/bin/frames"; start frames ;;
        state) rm -f "$B/bin/state"; start state ;;
        elements) rm -f "$B/bin/elements"; start elements ;;
        coeffs) rm -f "$B/bin/coeffs"; start coeffs ;;
    esac
done
rc=0
for k in "${!pid[@]}"; do
    if ! wait "${pid[$k]}"; then
        if [ "$k" = units ] || [ "$k" = frames ] || [ "$k" = state ] || [ "$k" = elements ] || [ "$k" = coeffs ]; then
            echo "note: the $k driver does not build against this tree; continuing with the command-line encoder only" >&2
        elif [ "$k" = hooked ]; then
            # the hook is compiled out everywhere else, so a change may break it unnoticed
            echo "note: the frame observation hook does not build against this tree; continuing without it" >&2
            nohook=1
        else
            echo "build of $k failed:" >&2; grep -A12 '^error' "$B/log/$k.log" | head -40 >&2; rc=3
        fi
    fi
done
[ -z "$nohook" ] || [ $rc != 0 ] || put "$B/bin/av1enc-dev" av1enc-hooked || rc=3
exit $rc
