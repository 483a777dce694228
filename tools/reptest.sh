#!/bin/bash
# build /repo, run its test-suite and compare with the recorded baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=set(b['stable']); 
p=t.get('passed') or t.get('pass') or [k for k,v in t.items() if v in('pass','ok',True)]
m=s-set(p)
print('stable',len(s),'missing',sorted(m)[:10])
P
