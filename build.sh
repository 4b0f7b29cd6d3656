#!/bin/bash
# build.sh [edge|cli]: build the simulator against the working tree of /repo; `edge` with preemption points at every
# branch of the library, `cli` with the command line programs, each in a folder of its own.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
target="$here/sim/target"
features=
if [ "$1" = edge ]; then
    target="$target/edge"
    export RUSTC_WRAPPER="$here/sim/rustc-wrap"
    features="--features work"
fi
stale="-p kdbx-rs"
if [ "$1" = cli ]; then
    target="$target/cli"
    features="--features cli"
    stale="$stale -p kdbx-sim"
fi
export CARGO_TARGET_DIR="$target"
mkdir -p "$target"
exec 9> "$target/.build-lock"
flock 9
# Cargo decides by time stamps; decide by content instead.
stamp="$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock 2>/dev/null; } | sha256sum)"
if [ "$(cat "$target/.repo-stamp" 2>/dev/null)" != "$stamp" ]; then
    cargo clean --offline --release $stale > /dev/null 2>&1
    : > "$target/.repo-stamp"
fi
log="$(mktemp)"
if ! cargo build --offline --release $features > "$log" 2>&1; then
    grep -E '^error' -A12 "$log" >&2
    rm -f "$log"
    echo "build failed" >&2
    exit 2
fi
rm -f "$log"
printf '%s\n' "$stamp" > "$target/.repo-stamp"
