#!/bin/bash
# seed.sh ID : verify one seeded bug in a scratch copy; seed.sh new ID : capture patch from /tmp/seedwt
set -u
wt=/tmp/seedwt
. /verif/env.sh
export GOCACHE=/tmp/seedgocache
[ -d $GOCACHE ] || cp -a /verif/.cache/go $GOCACHE
mk() { rm -rf /tmp/seedwt; cp -a /repo /tmp/seedwt; git -C $wt checkout -q -- .; }
tests() { (cd $wt && go test -vet=off -count=1 ./... 2>&1 | tail -5); }
case $1 in
wt) mk;;
cap) id=$2; mkdir -p /verif/seeded/$id; git -C $wt diff > /verif/seeded/$id/patch.diff; wc -l /verif/seeded/$id/patch.diff; cp /verif/tools/seedlib/wadlib.py /verif/seeded/$id/
  [ -f /verif/seeded/$id/demo.sh ] || printf '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n' > /verif/seeded/$id/demo.sh;;
*) id=$1; mk; d=/verif/seeded/$id
  cp -a $d /tmp/seeddemo.$$
  (cd $wt && go build -buildvcs=false -o /tmp/seedbin.clean . && git apply $d/patch.diff && go build -buildvcs=false -o /tmp/seedbin.bug .) || { echo BUILDFAIL; exit 1; }
  (cd $wt && go test -vet=off -count=1 . 2>&1 | tail -3)
  cd $wt; git checkout -q -- .
  VB_BIN=/tmp/seedbin.clean bash /tmp/seeddemo.$$/demo.sh > /tmp/seed.c.log 2>&1; a=$?
  git apply $d/patch.diff; VB_BIN=/tmp/seedbin.bug bash /tmp/seeddemo.$$/demo.sh > /tmp/seed.b.log 2>&1; b=$?
  rm -rf /tmp/seeddemo.$$
  echo "clean=$a bug=$b"; [ $a -ne 0 ] && tail -5 /tmp/seed.c.log; tail -3 /tmp/seed.b.log; python3 -c "import json;json.load(open('$d/meta.json'))"
  ;;
esac
