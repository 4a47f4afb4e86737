#!/bin/bash
# Builds the monitors once, so that the build cache is warm.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$VERIF_DIR/bin" "$VERIF_DIR/evidence"
cd "$VERIF_DIR/harness" && go build -tags verif -o "$VERIF_DIR/bin/vh" . && go build -tags verif -race -o "$VERIF_DIR/bin/vh-race" .
