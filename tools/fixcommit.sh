#!/bin/bash
# fixcommit.sh MESSAGE: run the stable tests on /repo's working tree and commit it if they pass
set -e
bash /opt/vp/test.sh /tmp/fix_out.json >/tmp/fix_out.log 2>&1 || { tail -30 /tmp/fix_out.log; exit 1; }
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix_out.json'))
ids=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
miss=set(ids)-set(o['passed'])
print(len(ids),'stable,',len(miss),'missing'); sys.exit(bool(miss))
P
cd /repo && git commit -qam "$1" && git log --oneline | head -1
