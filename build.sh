#!/bin/bash
# Builds sim/ (release) against /repo's current working tree. Everything it writes lies in sim/target.
# "build.sh": the simulator. "build.sh steps": the simulator that counts steps (C19). "build.sh all": both.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=$here/sim/rustc-wrap.sh CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# cargo goes by mtime; the contents decide here
now=$({ cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
        cd "$here/sim" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
build() { # directory, value of POSIM_STEPS
    export CARGO_TARGET_DIR=$1 POSIM_STEPS=$2
    mkdir -p "$CARGO_TARGET_DIR" || exit 2
    exec 9> "$CARGO_TARGET_DIR/.posim.lock"
    flock 9
    if [ "$now" != "$(cat "$CARGO_TARGET_DIR/.posim.sources" 2>/dev/null)" ] || [ ! -x "$CARGO_TARGET_DIR/release/posim" ]; then
        rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/po{reader,sim}-* "$CARGO_TARGET_DIR"/release/build/poreader-*
        if ! (cd "$here/sim" && cargo build --release --offline --quiet) > "$CARGO_TARGET_DIR/build.log" 2>&1; then
            grep -E '^error' -A12 "$CARGO_TARGET_DIR/build.log" >&2
            echo "posim: the build failed" >&2
            exit 2
        fi
        echo "$now" > "$CARGO_TARGET_DIR/.posim.sources"
    fi
    exec 9>&-
}
case $1 in
steps) build "$here/sim/target/steps" 1 ;;
all) build "$here/sim/target" ''; build "$here/sim/target/steps" 1 ;;
*) build "$here/sim/target" '' ;;
esac
