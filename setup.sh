#!/bin/bash
# Checks build everything they need themselves; this only verifies the tools are there.
set -e
RUSTUP_TOOLCHAIN=nightly-2026-08-20 rustc --version
clang --version | head -1
python3 --version
chmod +x "$(dirname "$0")/bin/check"
