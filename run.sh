#!/bin/bash
# run.sh PROPERTY quick|thorough   build the checker against /repo's current tree and run it
# run.sh build                     only build
# run.sh replay FILE               run the case of a replay file again
set -u
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$V"
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$V/target"
mkdir -p "$V/target" "$V/evidence" "$V/replays"

build() {
    exec 9>"$V/target/.verif-lock"
    flock 9
    # cargo goes by time stamps; make it see crates whose contents differ from the last build
    local c h old
    for c in /repo/crates/*/; do
        h=$(cd "$c" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
        old=$(cat "$V/target/.hash-$(basename "$c")" 2>/dev/null)
        if [ "$h" != "$old" ]; then
            find "$c" -type f \( -name '*.rs' -o -name '*.pest' \) -exec touch {} +
        fi
        echo "$h" >"$V/target/.hash-$(basename "$c").new"
    done
    (cd "$V/mc" && RUSTFLAGS="--cfg verif_hooks" cargo build --offline -q) >"$V/target/.build.log" 2>&1 || {
        cat "$V/target/.build.log" >&2
        echo "the checker does not build against /repo" >&2
        return 1
    }
    for c in /repo/crates/*/; do
        mv -f "$V/target/.hash-$(basename "$c").new" "$V/target/.hash-$(basename "$c")"
    done
    flock -u 9
}

# The crates again, compiled against a stand-in for std whose mutexes and so on are points
# at which threads are switched.
conc() {
    exec 8>"$V/target/.conc-lock"
    flock 8
    local h old c
    mkdir -p "$V/target/conc"
    h=$(sha256sum "$V/conc/shim/lib.rs" "$V/conc/wrap.sh" | sha256sum | cut -d' ' -f1)
    if [ "$h" != "$(cat "$V/target/conc/.shim" 2>/dev/null)" ] || [ ! -f "$V/target/conc/libmcstd.rlib" ]; then
        rustc --crate-name mcstd --crate-type rlib --edition 2021 -O --cap-lints allow "$V/conc/shim/lib.rs" -o "$V/target/conc/libmcstd.rlib" || return 2
        rm -f "$V"/target/conc/.hash-*
        echo "$h" >"$V/target/conc/.shim"
    fi
    for c in /repo/crates/*/; do
        h=$(cd "$c" && find . -type f -not -path './target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
        old=$(cat "$V/target/conc/.hash-$(basename "$c")" 2>/dev/null)
        if [ "$h" != "$old" ]; then
            find "$c" -type f \( -name '*.rs' -o -name '*.pest' \) -exec touch {} +
        fi
        echo "$h" >"$V/target/conc/.hash-$(basename "$c").new"
    done
    (cd "$V/conc" && MCSTD="$V/target/conc/libmcstd.rlib" RUSTC_WRAPPER="$V/conc/wrap.sh" CARGO_TARGET_DIR="$V/target/conc" cargo build --offline -q) >"$V/target/conc/.build.log" 2>&1
    local r=$?
    if [ $r = 0 ]; then
        for c in /repo/crates/*/; do
            mv -f "$V/target/conc/.hash-$(basename "$c").new" "$V/target/conc/.hash-$(basename "$c")"
        done
    fi
    flock -u 8
    return $r
}

build || exit 2
case "${1:-}" in
build)
    conc || { cat "$V/target/conc/.build.log" >&2; exit 2; }
    exit 0
    ;;
C16 | replay)
    if ! conc; then
        if [ "$1" = C16 ] && grep -q "cannot be \(shared\|sent\) between threads safely" "$V/target/conc/.build.log"; then
            # the environments cannot be used by several threads at all any more
            export MC_CONC_FAIL="$V/target/conc/.build.log"
        else
            cat "$V/target/conc/.build.log" >&2
            echo "the explorer of schedules does not build against /repo" >&2
            exit 2
        fi
    fi
    ;;
esac
exec "$V/target/debug/mc" "$@"
