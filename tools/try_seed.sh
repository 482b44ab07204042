#!/bin/bash
# try_seed.sh <id> [--tests]: apply a seeded change, run the property's check (and the stable tests), undo it
id=$1; d=/verif/seeded/$id
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 3
cd /verif && python3-vt check.py $pid > /tmp/try_$id.log 2>&1; rc=$?
if [ "$2" = --tests ]; then bash /opt/vp/test.sh /tmp/try_$id.json >/dev/null 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/try_$id.json'))
base=set(b.get('passed') or b.get('stable') or b); got=set(o.get('passed') or o)
print('stable tests missing:', sorted(base-got))
P
fi
git -C /repo checkout -- .
echo "$id $pid rc=$rc"; grep -E "VIOLATION|obligations|refuted|undecided|fails on" /tmp/try_$id.log | cut -c1-260 | head -12
