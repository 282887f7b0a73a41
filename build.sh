#!/bin/bash
# Build the simulator, and the barc command with the simulator linked in, from
# /repo's current working tree. Offline. `build.sh sim` or `build.sh cli`
# builds one of the two.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG
here=$(cd "$(dirname "$0")" && pwd) || exit 2
log=$(mktemp /tmp/bisim-build.XXXXXX) || exit 2
for part in ${1:-sim cli}; do
    cd "$here/$part" || exit 2
    if ! cargo build --offline --locked >"$log" 2>&1; then
        grep -v '^warning' "$log" | tail -n 60 >&2
        rm -f "$log"
        echo "ERROR: the simulator does not build ($part)" >&2
        exit 2
    fi
done
rm -f "$log"
