#!/bin/bash
# seedcheck.sh ID...: the demonstration on the unchanged tree and with the patch, and the check with the patch (in a scratch copy)
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do bash /verif/seeded/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id clean rc=$?"; done
for id in "$@"; do
  git apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id BUILD FAILED"
  if [ -n "$SUITE" ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 -c "import json;print(json.load(open('/tmp/t.json'))['failed'])"; fi
  bash /verif/seeded/$id/demo.sh >/tmp/demo.log 2>&1; echo "$id patched rc=$? $(tail -1 /tmp/demo.log)"
  git checkout -- .
done
bash /opt/vp/build.sh >/dev/null 2>&1
