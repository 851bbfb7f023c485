#!/bin/bash
# Development helper: run the stable tests and compare with the baseline.
bash /opt/vp/test.sh /tmp/o.json > /tmp/o.log 2>&1
/usr/bin/python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(d):
    for k in ('passed','stable','tests'):
        if k in d: 
            return set(d[k]) if isinstance(d[k],list) else {t for t,v in d[k].items() if v in('passed','pass',True)}
p=passed(b)-passed(o)
print('STABLE MISSING:',sorted(p) if p else 'none', len(passed(b)))
P
