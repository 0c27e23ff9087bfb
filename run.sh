#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--part NAME] [--replay FILE]
#        run.sh --build           (build every harness, used by setup_cmd)
# Builds the harness against /repo's current working tree and runs one check.
# Exit 0: held; 1 with a VIOLATION line: broken; anything else: no answer.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$VERIF"
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CI CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG CARGO_BUILD_TARGET RUSTC CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR="$VERIF/target"
# the two harnesses have different profiles for the same crates: in one folder each build undoes the other
BIN_TARGET="$VERIF/target/bin"
mkdir -p "$CARGO_TARGET_DIR" "$BIN_TARGET" "$VERIF/evidence"

# Cargo decides by modification time and does not see files that automod::dir! lists; decide by
# content instead: a crate whose sources changed since the last build is cleaned first.
refresh() {
    local h="$CARGO_TARGET_DIR/.src-hash" d name sum
    mkdir -p "$h"
    for d in /repo/libs/* /repo/arma /repo/bin /repo/hls "$VERIF"/stubs/*; do
        [ -f "$d/Cargo.toml" ] || continue
        sum=$(cd "$d" && find . -name target -prune -o -name node_modules -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha1sum | sha1sum)
        name=$(echo "$d" | tr / _)
        if [ -f "$h/$name" ] && [ "$(cat "$h/$name")" != "$sum" ]; then
            local pkg
            pkg=$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$d/Cargo.toml" | head -1)
            (cd "$1" && cargo clean --offline -p "$pkg" >/dev/null 2>&1)
            [ -n "${2:-}" ] && (cd "$2" && CARGO_TARGET_DIR="$BIN_TARGET" cargo clean --offline -p "$pkg" >/dev/null 2>&1)
            # mcx and hls are built from the main.rs of these
            case "$d" in /repo/bin|/repo/hls) [ -n "${2:-}" ] && (cd "$2" && CARGO_TARGET_DIR="$BIN_TARGET" cargo clean --offline -p mcx >/dev/null 2>&1) ;; esac
        fi
        echo "$sum" > "$h/$name"
    done
}

build() { # crate dir, arguments
    local log="$CARGO_TARGET_DIR/build-$(basename "$1").log" at="$1" to="$CARGO_TARGET_DIR"
    [ "$at" = "$BIN_CRATE" ] && to="$BIN_TARGET"
    shift
    if ! (cd "$at" && CARGO_TARGET_DIR="$to" cargo build --offline --locked "$@") > "$log" 2>&1; then
        if ! (cd "$at" && CARGO_TARGET_DIR="$to" cargo build --offline "$@") > "$log" 2>&1; then
            tail -n 60 "$log" >&2
            echo "run.sh: the harness $at does not build against /repo" >&2
            return 1
        fi
    fi
}

exec 9> "$CARGO_TARGET_DIR/.lock"
flock 9
BIN_CRATE=""
[ -d "$VERIF/harness-bin" ] && BIN_CRATE="$VERIF/harness-bin"
refresh "$VERIF/harness" "$BIN_CRATE"

if [ "${1:-}" = "--build" ]; then
    rc=0
    build "$VERIF/harness" || rc=1
    [ -n "$BIN_CRATE" ] && { build "$BIN_CRATE" || rc=1; }
    exit $rc
fi
id="${1:?property id}"; shift
case "$id" in
    X14) build "$BIN_CRATE" || exit 2; exe="$BIN_TARGET/debug/mcx" ;;
    X*) build "$BIN_CRATE" --bin mcx || exit 2; exe="$BIN_TARGET/debug/mcx" ;;
    *)  build "$VERIF/harness" || exit 2; exe="$CARGO_TARGET_DIR/debug/mc" ;;
esac
flock -u 9
exec 9>&-
cd "$VERIF" || exit 2
"$exe" "$id" "$@" 9>&-
rc=$?
exit $rc
