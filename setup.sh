#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo and /verif/sim. This only verifies the toolchain.
set -e
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo --version
test -f /repo/Cargo.toml && test -f "$(dirname "$0")/sim/Cargo.lock"
