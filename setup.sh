#!/bin/bash
# Builds the framework from the committed files, offline.
set -e
cd "$(dirname "$0")"
(cd translator && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=../.build/translator cargo build --offline --release -q)
(cd harness && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=../.build/harness cargo build --offline --release -q)
verus --version >/dev/null
