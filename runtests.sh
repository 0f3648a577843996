#!/bin/bash
# Rebuilds /repo and checks that every stable test still passes.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
names=set(st if isinstance(st,list) else st.keys())
print("missing:",sorted(names-set(o['passed'])), len(names))
P
