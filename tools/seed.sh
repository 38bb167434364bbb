#!/bin/bash
# seed.sh ID [check]: confirm a planted bug in a scratch copy (build, stable tests, demo both ways); with "check" also run the property's quick check
id=$1; d=/verif/seeded/$id; w=/tmp/seedcopy.$$
mkdir -p $w && cp -a /repo $w/repo
inr() { unshare -m bash -c "mount --bind $w/repo /repo && $1"; }
demo() { mkdir -p $w/demo && cp $d/* $w/demo/ && rm -f $w/demo/*.diff $w/demo/meta.json && inr "cd /repo && timeout 300 bash $w/demo/demo.sh" >$w/demo.log 2>&1; }
demo; r0=$?; tail -3 $w/demo.log
git -C $w/repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
inr "bash /opt/vp/build.sh; bash /opt/vp/test.sh /repo/_build/o.json" >$w/test.log 2>&1
python3 - $w/repo/_build/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; b=b['passed'] if isinstance(b,dict) else b
o=set(json.load(open(sys.argv[1]))['passed']); m=[t for t in b if t not in o]; print("tests:", "OK" if not m else "FAIL %s"%m)
P
demo; r1=$?; tail -3 $w/demo.log
echo "$id: demo unchanged=$r0 (want 0) patched=$r1 (want nonzero)"
if [ -n "$2" ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); SYMX_REPO=$w/repo SYMX_OUT=$w python3 /verif/check.py $p ${3:-quick} | tail -8; fi
rm -rf "$w"
