#!/bin/bash
# cfix.sh "fix: message": builds and tests /repo's working tree, commits if the stable tests pass
set -e
bash /opt/vp/build.sh >/tmp/cfix.build 2>&1 || { tail -30 /tmp/cfix.build; exit 1; }
bash /opt/vp/test.sh /tmp/cfix.json >/tmp/cfix.test 2>&1 || true
python3 - <<'E'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/cfix.json'))
st=b['stable']
txt=json.dumps(r)
p=r.get('passed',[])
missing=[t for t in st if t not in p]
print('passed',len(p),'missing',missing)
sys.exit(bool(missing))
E
cd /repo; git status --short | grep -v '^ M' && { echo untracked; exit 1; }
git commit -qa $AMEND -m "$1"; git log --oneline | head -1
