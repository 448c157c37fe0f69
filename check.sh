#!/bin/bash
# Usage: check.sh <property> <quick|thorough>   Builds the simulator against /repo's current
# working tree and decides one property. Exit 0: held on everything explored; 1: violation.
# check.sh --build only builds (setup_cmd).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR="$here/sim/target"
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# cargo goes by file times; always have it compile the crate under test again.
rm -rf "$here"/sim/target/release/.fingerprint/html5-fuser-*
mkdir -p "$here/evidence"
if ! log=$(cd "$here/sim" && cargo build --release --offline --locked 2>&1); then
    echo "$log" | tail -n 40
    echo "the simulator does not build against /repo"
    exit 2
fi
[ "$1" = "--build" ] && exit 0
exec "$CARGO_TARGET_DIR/release/sim" check "$1" "${2:-quick}" "$here"
