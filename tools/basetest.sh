#!/bin/bash
# basetest.sh -- run the repository's tests and compare with the baseline (development aid)
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
ok=set(o.get('passed',[]) if isinstance(o.get('passed'),list) else [])
miss=[t for t in b['stable'] if t not in ok]
print('MISSING',len(miss),'of',len(b['stable']),miss[:10])
P
