#!/bin/bash
# mut.sh PATCH ID...: applies a patch to a scratch copy of /repo (/tmp/mut) and runs the checks of the properties against it
P=$(readlink -f "$1"); shift
D=/tmp/mut
exec 9>/tmp/mut.lock; flock 9
rm -rf /tmp/mut; mkdir -p $D/repo $D/v/evidence
cp -a /repo/src /repo/include $D/repo/
(cd $D/repo && patch -p1 -s < "$P") || { echo "does not apply"; rm -rf /tmp/mut; exit 3; }
export VERIF_REPO=$D/repo VERIF_BUILD=$D/build
cp -a /verif/*.py /verif/src /verif/known_findings.txt $D/v/
for id in "$@"; do (cd $D/v && VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 run_check.py $id 2>&1 | grep -v "^\[\|^ " | tail -${LINES_:-6} | cut -c1-300; echo "== $id: exit ${PIPESTATUS[0]}"); done
rm -rf /tmp/mut
