#!/bin/bash
# existing tests against the stable list
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
/opt/venv/bin/python - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/out.json'))
miss=[x for x in b if x not in set(o['passed'])]
print(len(b),'stable; not passing now:',miss[:10])
P
