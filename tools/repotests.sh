#!/bin/bash
# run the repository's stable tests and report those that fail
bash /opt/vp/test.sh /tmp/w/out.json > /tmp/w/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/w/out.json'))
m=[x for x in b if x not in o['passed']]
print('stable', len(b), 'missing/failing', m)
P
