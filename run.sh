#!/bin/bash
# Usage: run.sh setup | run.sh quick|thorough <property> [generator] | run.sh replay <file>
# Builds the harness against the working tree of /repo (with the verification hooks enabled) and runs one check.
set -u
cd "$(dirname "$0")"
VERIF_DIR="$(pwd)"
export VERIF_DIR
REPO="${HV_REPO:-/repo}"
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg hydra_verif"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR" evidence replays

build() {
    # Cargo decides by file times, which say nothing about a tree that was copied here: decide by content.
    local sum
    sum="$(cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 \
        | sort -z | xargs -0 sha256sum | sha256sum; cd "$VERIF_DIR" && find harness -path harness/target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
    local log="$CARGO_TARGET_DIR/build.log"
    exec 9>"$CARGO_TARGET_DIR/.hv-lock"
    flock 9
    if [ "$(cat "$CARGO_TARGET_DIR/.hv-stamp" 2>/dev/null)" != "$sum" ] || [ ! -x "$CARGO_TARGET_DIR/debug/hydra-verif" ]; then
        (cd harness && cargo clean --offline -p hydra -p hydra-macros -p hydra-websockets -p hydra-verif >"$log" 2>&1)
        if ! (cd harness && cargo build --offline >"$log" 2>&1); then
            tail -40 "$log" >&2
            echo "HARNESS: build failed" >&2
            exit 2
        fi
        echo "$sum" >"$CARGO_TARGET_DIR/.hv-stamp"
    fi
    flock -u 9
    exec 9>&-
}

case "${1:-}" in
setup)
    build
    ;;
quick | thorough)
    build
    exec "$CARGO_TARGET_DIR/debug/hydra-verif" check "$2" "$1" ${3:-}
    ;;
replay)
    build
    exec "$CARGO_TARGET_DIR/debug/hydra-verif" replay "$2"
    ;;
*)
    echo "usage: run.sh setup | quick|thorough <property> [generator] | replay <file>" >&2
    exit 2
    ;;
esac
