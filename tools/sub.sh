#!/bin/bash
# sub.sh PATHS... -- run some of the repository's tests, list the failures that are in the baseline
export PATH=/opt/pvenv/bin:$PATH; cd /repo; /opt/pvenv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings "$@" 2>&1 > /tmp/sub.log
tail -1 /tmp/sub.log
python3 - <<'P'
import json,re
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for l in open('/tmp/sub.log'):
    m=re.match(r'(FAILED|ERROR) (\S+)',l)
    if m:
        p=m.group(2); mod,_,name=p.partition('::')
        key=mod[:-3].replace('/','.')+'::'+name.replace('::','.')
        if any(s.endswith(name.split('::')[-1]) and mod.split('/')[-1][:-3] in s for s in st): print('BASE FAIL',p)
P
