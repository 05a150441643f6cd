#!/bin/bash
# detect.sh TIER ids... : applies each planted bug to a scratch clone of /repo, runs its property's check on it, records the result in tools/detection.json
V=$(cd "$(dirname "$0")/../.." && pwd)
t=$1; shift
$V/build.sh >/dev/null 2>&1
mkdir -p /tmp/sc
for i in "$@"; do
 d=$V/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 w=/tmp/sc/det$$; git clone -q /repo $w; git -C $w apply $d/patch.diff || { echo "$i NOAPPLY"; /usr/bin/rm -rf /tmp/sc/det$$; continue; }
 s=$(date +%s); vd=/tmp/sc/detv$$; mkdir -p $vd; ln -sfn $V/harness $vd/harness; ln -sfn $V/overlay $vd/overlay; ln -sfn $V/known_findings.txt $vd/known_findings.txt; mkdir -p $vd/evidence
 VERIF_TIER=$t timeout 900 $V/bin/symgo -repo $w -verif $vd -prop $p -tier $t > /tmp/det_$i.log 2>&1; rc=$?
 e=$(( $(date +%s)-s ))
 echo "$i $p rc=$rc ${e}s $(grep -a -A0 'VH_.*inputs' /tmp/det_$i.log | grep -av '^VH\|not reproduced' | head -1 | cut -c1-150)"
 flock /tmp/detlock python3 - "$V/tools/detection.json" $i $rc $e <<'P'
import json,sys,os
f,i,rc,e=sys.argv[1:]; d=json.load(open(f)) if os.path.exists(f) else {}
d[i]="yes" if rc=="1" else "no"
json.dump(d,open(f,"w"),indent=0,sort_keys=True)
P
 /usr/bin/rm -rf /tmp/sc/det$$ /tmp/sc/detv$$
done
