#!/bin/bash
# runs the repository's tests and compares with the baseline
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/out.json >/tmp/out.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def names(d):
    if isinstance(d,dict):
        for k in ('passed','stable','tests','pass'):
            if k in d: return set(d[k] if isinstance(d[k],list) else [n for n,v in d[k].items() if v in('passed','pass',True)])
    return set(d)
B,O=names(b),names(o)
print("baseline",len(B),"now",len(O),"missing",sorted(B-O))
PY
