#!/bin/bash
# plant.sh ID PROPERTY [CHECK...]: /repo holds the change, /verif/seeded/ID the demonstration. Confirms the change and undoes it.
ID=$1; PROP=$2; shift 2; D=/verif/seeded/$ID
cd /repo
git diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no change"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/pl_build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/pl_build.log; exit 2; }
(bash $D/demo.sh > /tmp/pl_demo.log 2>&1); R=$?; echo "demo with change: $R"; tail -4 /tmp/pl_demo.log
bash /opt/vp/test.sh /tmp/pl_out.json > /tmp/pl_test.log 2>&1; tail -1 /tmp/pl_test.log
(cd /verif; for P in $PROP "$@"; do ./check $P quick > /tmp/pl_check.log 2>&1; echo "check $P: $?"; grep -v "^G[0-9]" /tmp/pl_check.log | cut -c1-300 | head -4; done)
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/pl_build.log 2>&1
(bash $D/demo.sh > /tmp/pl_demo.log 2>&1); R=$?; echo "demo without: $R"; tail -4 /tmp/pl_demo.log
