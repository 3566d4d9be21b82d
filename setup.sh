#!/bin/bash
# Warms the build cache (offline): harness, target, race build of the target.
set -eu
cd "$(dirname "$0")"
. ./env.sh
(cd harness && go build -buildvcs=false -o /dev/null .)
(cd "$REPO" && go build -buildvcs=false -tags verif -o /dev/null .)
(cd "$REPO" && CGO_ENABLED=1 go build -race -buildvcs=false -tags verif -o /dev/null .)
mkdir -p evidence replays
