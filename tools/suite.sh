#!/bin/bash
# rebuilds /repo and runs its stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1; tail -1 /tmp/b.log; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "
import json;t=json.load(open('/tmp/t.json'));print({k:len(v) if hasattr(v,'__len__') else v for k,v in t.items()})"
