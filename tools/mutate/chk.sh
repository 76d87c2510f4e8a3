#!/bin/bash
# chk.sh BUG CHECK... : run checks of /verif on a copy of /repo with the bug
b=$1; shift
d=/tmp/seed/m_$b; rm -rf $d; mkdir $d; cp -a /repo/src $d/; (cd $d && git init -q . 2>/dev/null; git apply /verif/seeded/$b/patch.diff) || { echo "apply failed"; exit 9; }
for c in "$@"; do
 t0=$(date +%s)
 out=$(cd /verif && VP_REPO=$d VP_BUILD=/tmp/seed/b_$b timeout 900 ./run.sh $c quick 2>&1); rc=$?
 echo "$b $c rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
done
rm -rf $d
