#!/bin/bash
# build.sh OUT : builds the fact extractor
set -e
T=/root/.rustup/toolchains/nightly-2026-08-20-x86_64-unknown-linux-gnu
cd "$(dirname "$0")"
RUSTUP_TOOLCHAIN=nightly-2026-08-20 rustc --edition 2024 -C opt-level=1 -C "link-args=-Wl,-rpath,$T/lib" driver.rs -o "$1"
