#!/bin/bash
# trial.sh PATCH|- ID...: development aid. Applies PATCH to a scratch copy of /repo (TRIAL, default /tmp/trial),
# builds posim against the copy and runs the quick checks of the given properties there ("all": every one).
here=$(cd "$(dirname "$0")/.." && pwd)
T=${TRIAL:-/tmp/trial}; patch=$1; shift
mkdir -p "$T/root"
mkdir -p "$T/repo"; rsync -a --delete --exclude target --exclude .git /repo/ "$T/repo/" 2>/dev/null || { find "$T/repo" -mindepth 1 -delete; (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C "$T/repo"; }
mkdir -p "$T/sim"; (cd "$here/sim" && tar c --exclude=./target .) | tar x -C "$T/sim"
sed -i "s#path *= *\"/repo\"#path = \"$T/repo\"#" "$T/sim/Cargo.toml"
if [ "$patch" != - ]; then (cd "$T/repo" && git apply --unsafe-paths "$patch" 2>/dev/null || patch -s -p1 < "$patch") || { echo "patch failed"; exit 3; }; fi
[ "$1" = all ] && set -- C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C17 C18 C19
build() {
    export CARGO_TARGET_DIR=$1 POSIM_STEPS=$2
    rm -rf "$1"/release/.fingerprint/po{reader,sim}-* "$1"/release/build/poreader-*
    (cd "$T/sim" && RUSTC_WRAPPER=$T/sim/rustc-wrap.sh cargo build --release --offline --quiet) > "$T/build.log" 2>&1 || { grep -A8 ^error "$T/build.log"; exit 4; }
}
[ "$*" = C19 ] || build "$T/target" ''
case " $* " in *" C19 "*) build "$T/target/steps" 1 ;; esac
cp "$here/known-findings.txt" "$T/root/"
for id; do
    s=$(date +%s); kind=; [ $id = C19 ] && kind=steps; POSIM_ROOT=$T/root "$T/target/$kind/release/posim" check "$id" > "$T/out.$id" 2>&1; rc=$?
    echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION "$T/out.$id") $(grep -v VIOLATION "$T/out.$id" | tail -1 | cut -c1-${COLS:-150})"
done
