#!/bin/bash
# builds /repo the official way, runs its tests, lists baseline tests that no longer pass
bash /opt/vp/build.sh >/tmp/repotest.build 2>&1 || { tail -30 /tmp/repotest.build; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/tmp/repotest.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/repotest.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bl=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
p=set(o['passed']); m=[t for t in bl if t not in p]
print('passed',len(p),'missing',m[:10])
P
