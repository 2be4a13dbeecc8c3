#!/bin/bash
# build + test summary
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; grep -E "^error" -A8 /tmp/b.log | head -30; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; tail -2 /tmp/t.log
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json')); print({k:(len(v) if isinstance(v,list) else v) for k,v in d.items()}, d.get('failed'))
P
