#!/bin/bash
# one.sh FILE OFF END NEW CHECK...: runs checks on a single mutant
f=$1 o=$2 e=$3 n=$4; shift 4; V=/verif; w=/tmp/sc/one$$; vd=$w.v
git clone -q /repo $w; mkdir -p $vd/evidence; for x in harness overlay known_findings.txt; do ln -s $V/$x $vd/$x; done
F=$w/$f O=$o E=$e N=$n python3 -c "
import os
p=os.environ['F'];s=open(p,'rb').read();open(p,'wb').write(s[:int(os.environ['O'])]+os.environ['N'].encode()+s[int(os.environ['E']):])"
git -C $w diff | cat
for c in "$@"; do $V/bin/symgo -repo $w -verif $vd -prop $c -tier quick -first > $w.log 2>&1; echo "$c rc=$?"; grep -a 'VIOLATION' -B1 $w.log | head -4 | cut -c1-300; done
/usr/bin/rm -rf $w $vd $w.log
