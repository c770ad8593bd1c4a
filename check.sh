#!/usr/bin/env bash
# Builds and runs the check of one property against the working tree of /repo.
#   check.sh C01                 runs the check (VERIF_SEED, VERIF_TIER)
#   check.sh C01 --replay FILE   replays one case
#   check.sh --setup             builds the machinery
# Exit 0: held, 1: violation, anything else: error of the check.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VP_ROOT="$ROOT"
export CARGO_TARGET_DIR="$ROOT/target"
export CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
export VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
REPO=/repo
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence" "$ROOT/replays"

# The sources may come from a copy with arbitrary modification times, so cargo is not left
# to guess: when the content changed, the library is rebuilt.
STAMP="$CARGO_TARGET_DIR/repo.stamp"
NOW="$(cd "$REPO" && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
if [ "$(cat "$STAMP" 2>/dev/null)" != "$NOW" ]; then
    (cd "$ROOT/harness/checks" && cargo clean --offline -q -p tclifford 2>/dev/null)
    printf '%s\n' "$NOW" > "$STAMP"
fi

FEATURES=()
if [ "$VERIF_TIER" = thorough ]; then FEATURES=(--features wide); fi

build() { # crate, cargo arguments
    local crate="$1"
    shift
    (cd "$ROOT/harness/$crate" && cargo build --offline -q "${FEATURES[@]}" "$@") > "$CARGO_TARGET_DIR/build.log" 2>&1 || {
        tail -n 40 "$CARGO_TARGET_DIR/build.log"
        echo "CHECK-ERROR: the harness does not build"
        exit 2
    }
}

if [ "${1:-}" = --setup ]; then
    build checks --bins
    build progs --bins
    exit 0
fi

ID="$1"
shift
BIN="$(printf '%s' "$ID" | tr '[:upper:]' '[:lower:]')"
CRATE=checks
if [ -f "$ROOT/harness/progs/src/bin/$BIN.rs" ]; then CRATE=progs; fi
build "$CRATE" --bin "$BIN"
rm -f "$ROOT/evidence/$ID.json"
ulimit -v 25000000 2>/dev/null
exec "$CARGO_TARGET_DIR/debug/$BIN" "$@"
