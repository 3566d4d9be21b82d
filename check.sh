#!/bin/bash
# usage: check.sh ID [quick|thorough]
# Rebuilds the target from /repo's working tree and runs one property's check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID}
[ $# -ge 2 ] && export VERIF_TIER=$2
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
. "$here/env.sh"
export VH_ROOT=$here VH_REPO=$REPO
work=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
chmod 755 "$work"
mkdir -p "$work/bin" "$work/cases"
export VH_WORK=$work/cases VH_BIN=$work/bin/vigilantbsp VH_RACEBIN=
(cd "$here/harness" && go build -buildvcs=false -o "$work/bin/vh" .) || { echo "harness build failed" >&2; exit 2; }
(cd "$REPO" && go build -buildvcs=false -tags "${VH_TAGS:-verif}" -o "$VH_BIN" .) || { echo "target build failed" >&2; exit 2; }
build_extra "$id" "$work" || exit 2
"$work/bin/vh" "$id"
