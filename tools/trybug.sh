#!/bin/bash
# trybug.sh PATCH-ID CHECK... : run checks against a scratch copy with the patch applied
id=$1; shift
rm -rf /tmp/trywt; cp -a /repo /tmp/trywt; git -C /tmp/trywt checkout -q -- .
git -C /tmp/trywt apply /verif/seeded/$id/patch.diff || exit 3
for c in "$@"; do VH_REPO_DIR=/tmp/trywt bash /verif/check.sh $c > /tmp/try.$id.$c.log 2>&1; echo "$id $c rc=$? $(grep -m1 violation: /tmp/try.$id.$c.log | cut -c1-200)"; done
rm -rf /tmp/trywt
