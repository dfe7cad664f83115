#!/bin/bash
# one-time preparation: the tools are present, and the harness and the repository build
set -e
cd "$(dirname "$0")/.."
verus --version >/dev/null
mkdir -p .build
CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings \
  cargo build --offline -q --manifest-path harness/Cargo.toml --target-dir .build/target
echo setup done
