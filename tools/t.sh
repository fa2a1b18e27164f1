#!/bin/bash
# builds one program and runs it: t.sh c04 [cases];  SEED, TIER, MAXS, LINES_ from the environment
cd /verif && python3 build.py $1 2>&1 | tail -30
P=$(echo ${1:0:3} | tr c C)
grep "^known: property=$P " known_findings.txt | sed 's/.*match=\(.*\) :: .*/\1/' | awk '{print NR-1 "\t" $0}' > /tmp/$1.known
mkdir -p /tmp/rp; build/bin/$1 --seed ${SEED:-1} --cases ${2:-0} --tier ${TIER:-quick} --out /tmp/$1.json --replay-dir /tmp/rp --known /tmp/$1.known --max-seconds ${MAXS:-120} 2>&1 | tail -${LINES_:-60}
python3 -c "
import json;o=json.load(open('/tmp/$1.json'));print(o['evaluations'],o['distinct_nontrivial'],o['labels'],o['counts'],o['known'],o['unrepeatable_note'][:200]);[print(f['tag'],f['msg'][:300],f['replay']) for f in o['failures']]"
