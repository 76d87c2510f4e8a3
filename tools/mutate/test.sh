#!/bin/bash
R=$1; B=$R/_build; mkdir -p $B; export LG=$B; export LANG=C.UTF-8
EXTRA='-Wno-error -march=x86-64 -mtune=generic'
for v in test test_gc; do
 [ $v = test_gc ] && D='-DMPS_GC=' || D=
 mkdir -p $B/$v/obj
 make -j8 -C $R/src/OpenMps/test COMPILER=/usr/bin/g++ INCLUDE="$EXTRA $D" OBJDIR=$B/$v/obj TARGET=$B/$v/test_OpenMps $B/$v/test_OpenMps >$B/mk.log 2>&1 || { tail -5 $B/mk.log; exit 3; }
 (cd $R/src/OpenMps/test; timeout 400 $B/$v/test_OpenMps > $B/t_$v.log 2>&1); [ $? -ge 124 ] && exit 5; grep -E '^\[  FAILED' $B/t_$v.log | sort -u | head -5
done
mkdir -p $B/app/obj
make -j8 -C $R/src/OpenMps COMPILER=/usr/bin/clang++-18 INCLUDE="$EXTRA" OBJDIR=$B/app/obj TARGET=$B/app/OpenMps $B/app/OpenMps >$B/mk.log 2>&1 || { tail -5 $B/mk.log; exit 4; }
python3 - <<'P'
import json,re
base=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(base)
bad=set()
for v in ('test','test_gc'):
    for m in re.finditer(r'\[  FAILED  \] (\S+?)[ ,(\n]',open(__import__("os").environ["LG"]+"/t_%s.log"%v).read()):
        if '.' in m.group(1) and m.group(1).replace('.','::') in s: bad.add(m.group(1))
print('failed',bad)
raise SystemExit(1 if bad else 0)
P
