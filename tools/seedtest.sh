#!/bin/bash
# tools/seedtest.sh ID [nocheck|notest]...: confirm a planted bug in a scratch copy (mount namespace, /repo itself untouched) and run the property's quick check against it
ID=$1; shift; S=/verif/seeded/$ID; W=/tmp/seedw.$ID; OPT=" $* "
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W; cp -a /repo $W/repo; mkdir $W/demo; cp -a $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cp -a /verif $W/verif
cat > $W/go.sh <<EOF
mount --bind $W/repo /repo; cd /repo; export HOME=/root
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "BUILD0 FAILED"
(cd /repo; timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1); echo "$ID demo clean rc=\$? (want 0)"
git apply $S/patch.diff || echo "PATCH DOES NOT APPLY"
bash /opt/vp/build.sh >$W/b1.log 2>&1 || { echo "BUILD FAILED"; grep -m5 error $W/b1.log; }
(cd /repo; timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1); echo "$ID demo patched rc=\$? (want != 0)"
case "$OPT" in *notest*) ;; *) bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; echo "$ID tests: \$(tail -1 $W/t.log)";; esac
case "$OPT" in *nocheck*) ;; *) python3 $W/verif/check.py $P quick >$W/c.log 2>&1; echo "$ID check $P rc=\$? \$(grep -c ^VIOLATION $W/c.log) violations; \$(tail -1 $W/c.log)"; grep -m2 -- '->' $W/c.log | cut -c1-300;; esac
EOF
unshare -m bash $W/go.sh; for f in $W/d?.log; do tail -n 2 $f | cut -c1-300; done
rm -rf $W/repo $W/verif; mv $W /tmp/w/last.$ID 2>/dev/null || rm -rf "$W"
