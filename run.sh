#!/bin/bash
# usage: run.sh ID quick|thorough      one check
#        run.sh replay FILE            a violation again
# Builds /repo's working tree and the harness first (VERIF_SKIP_BUILD=1: uses what is built).
cd "$(dirname "$0")" || exit 2
. ./env.sh
LOG=$(mktemp)
trap 'rm -f "$LOG"' EXIT
if [ -z "$VERIF_SKIP_BUILD" ]; then
    (
        export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/repo/target
        cd /repo || exit 1
        # time stamps of files don't tell which of them changed since the last build
        cargo clean --offline -p jinja-lsp -p jinja-lsp-queries -p jinja-lsp-nodejs
        cargo build --workspace --locked --offline
    ) > "$LOG" 2>&1 || { tail -40 "$LOG"; echo "ERROR: /repo doesn't build"; exit 2; }
    bash ./setup.sh > "$LOG" 2>&1 || { tail -40 "$LOG"; echo "ERROR: the harness doesn't build"; exit 2; }
fi
export VERIF_DIR="$PWD" REPO_DIR=/repo
if [ "$1" = replay ]; then
    harness/target/debug/harness replay "$2"
else
    harness/target/debug/harness run "$1" "${2:-quick}"
fi
