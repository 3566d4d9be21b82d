#!/bin/bash
# developer helper: dev.sh TOOL args...   (builds harness + target into $X)
. /verif/env.sh
X=${VHX:-/tmp/vhx}
mkdir -p $X/bin $X/cases
(cd /verif/harness && go build -buildvcs=false -o $X/bin/vh .) || exit 2
(cd $REPO && go build -buildvcs=false -tags verif -o $X/bin/vigilantbsp .) || exit 2
export VH_ROOT=${VH_ROOT:-$X} VH_REPO=$REPO VH_WORK=$X/cases VH_BIN=$X/bin/vigilantbsp
build_extra "$1" $X || exit 2
exec $X/bin/vh "$@"
