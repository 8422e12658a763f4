#!/bin/bash
# tools/clonetest.sh CLONE: builds and tests the head of CLONE in a mount namespace (over /repo, which stays untouched)
C=$1; W=/tmp/clonetest.$$; mkdir -p $W; cp -a /repo $W/repo; (cd $W/repo && git pull -q $C HEAD)
cat > $W/go.sh <<EOF
mount --bind $W/repo /repo; cd /repo; bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo "BUILD FAILED"; grep -m5 error $W/b.log; }; bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; tail -1 $W/t.log
EOF
unshare -m bash $W/go.sh; grep -n "FAILED\|failed" $W/t.log | head -5; rm -rf $W/repo $W
