#!/bin/bash
# Maintainer helper: rebuild, run the stable tests, compare with the baseline, commit as "fix:".
# usage: fixcommit.sh "message"
set -e
bash /opt/vp/build.sh >/tmp/fb.log 2>&1 || { tail -20 /tmp/fb.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/ft.log 2>&1 || true
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(o)
p=set(o.get('passed',[]));st=b['stable'] if isinstance(b['stable'],list) else list(b['stable'])
miss=[t for t in st if t not in p]
print(len(st),'stable, missing',miss); sys.exit(bool(miss))
P
git -C /repo commit -qam "fix: $1"; git -C /repo log --oneline | head -1
