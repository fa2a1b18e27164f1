#!/bin/bash
# screen.sh CANDS.py [id...]: runs screen.py in a private mount namespace, in which /repo is a scratch copy
rm -rf /tmp/scr; mkdir -p /tmp/scr; cp -a /repo /tmp/scr/; git -C /tmp/scr/repo checkout -q -- .
unshare -Urm sh -c 'mount --bind /tmp/scr/repo /repo && exec python3 '"$(dirname "$(readlink -f "$0")")"'/screen.py "$@"' x "$@"
rm -rf /tmp/scr
