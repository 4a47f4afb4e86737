#!/bin/bash
# check.sh <ID> [job...]: builds the monitors from /repo's working tree and runs one property's.
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); export VERIF_DIR
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
mkdir -p "$VERIF_DIR/bin" "$VERIF_DIR/evidence"
cd "$VERIF_DIR/harness" || exit 2
go build -tags verif -o "$VERIF_DIR/bin/vh" . || { echo "build failed"; exit 2; }
id=$1
if [ "$("$VERIF_DIR/bin/vh" -needrace "$id")" = yes ]; then
  go build -tags verif -race -o "$VERIF_DIR/bin/vh-race" . || { echo "race build failed"; exit 2; }
fi
cd "$VERIF_DIR" || exit 2
exec "$VERIF_DIR/bin/vh" "$@"
