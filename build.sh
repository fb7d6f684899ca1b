#!/bin/bash
# Build the harness against /repo's current working tree, offline. Usage: build.sh [main]
# With "main" also build the repository's program (property C21).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
cd "$here/harness" || exit 2
mkdir -p target
exec 9>target/.build-lock
flock 9
# cargo compares times; compare contents, so that no change of the sources can be missed
hash=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
log=target/build.log
step() { # marker, clean command, build command
    local mark=$1 clean=$2 build=$3
    if [ "$(cat "$mark" 2>/dev/null)" != "$hash" ]; then
        [ -e "$mark" ] && eval "$clean" >/dev/null 2>&1
        rm -f "$mark"
    fi
    if ! eval "$build" >"$log" 2>&1; then
        cat "$log"
        echo "BUILD FAILED"
        exit 2
    fi
    echo "$hash" >"$mark"
}
step target/.srchash \
    "cargo clean --release --offline -p common -p multi-target-decision-tree -p multi-target-grad-boost -p vh" \
    "cargo build --release --offline"
if [ "$1" = main ]; then
    step target/.srchash-main \
        "cargo clean --release --offline --manifest-path /repo/Cargo.toml --target-dir '$here/harness/target/repo-main' -p common -p multi-target-decision-tree -p multi-target-grad-boost -p main" \
        "cargo build --release --offline --locked --manifest-path /repo/Cargo.toml -p main --bin main --target-dir '$here/harness/target/repo-main'"
fi
exit 0
