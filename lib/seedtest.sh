#!/bin/bash
# lib/seedtest.sh ID [notest] [PROP ...]: confirms a planted bug in a private copy of /repo (mounted over /repo in a
# namespace of its own): demo passes without the patch, patch builds, stable tests pass, demo fails, checks report it.
ID=$1; shift
V=${VERIF_HOME:-/verif}; S=$V/seeded/$ID
TESTS=1; [ "$1" = notest ] && { TESTS=0; shift; }
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
C=/tmp/seedcopy_$ID
rm -rf "/tmp/seedcopy_$ID"; cp -a /repo $C
export ID S TESTS PROPS V
unshare -Urm bash -c '
mount --bind /tmp/seedcopy_$ID /repo
cd /repo
D=/tmp/seedcopy_$ID.demo; rm -rf $D; cp -r $S $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh > /tmp/seedcopy_$ID.d0 2>&1; echo "$ID demo-clean=$?"
git apply --check $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
git apply $S/patch.diff
if [ $TESTS = 1 ]; then
  bash /opt/vp/test.sh /tmp/seedcopy_$ID.json > /tmp/seedcopy_$ID.t 2>&1
  python3 - <<E
import json
b=json.load(open("/opt/vp/BASELINE.json"));r=json.load(open("/tmp/seedcopy_$ID.json"))
m=set(b["stable"])-set(r["passed"])
print("$ID tests missing:",len(m),sorted(m)[:6])
E
else bash /opt/vp/build.sh > /tmp/seedcopy_$ID.t 2>&1; echo "$ID build=$?"; fi
bash $D/demo.sh > /tmp/seedcopy_$ID.d1 2>&1; echo "$ID demo-patched=$?"
for p in $PROPS; do
  VERIF_BUILD=/tmp/seedcopy_$ID.b VERIF_SEED=1 timeout 900 python3 $V/lib/check.py $p > /tmp/seedcopy_$ID.c_$p 2>&1; echo "$ID check $p exit=$? $(grep -m1 key: /tmp/seedcopy_$ID.c_$p)"
done
rm -rf $D'
rm -rf "/tmp/seedcopy_$ID" "/tmp/seedcopy_$ID.b" "/tmp/seedcopy_$ID.demo"
