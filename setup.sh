#!/bin/bash
# Builds the harness from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh
CARGO_TARGET_DIR="$PWD/harness/target" cargo build --offline --locked --manifest-path harness/Cargo.toml
