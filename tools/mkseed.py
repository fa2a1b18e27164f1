#!/usr/bin/env python3
"""mkseed.py: (re)creates /verif/seeded from the screened patches (in /tmp/cand, only when not there yet) and the demonstrations in tools/demo/d"""
import os, json, shutil, runpy
V = '/verif'; D = V + '/tools/demo'
S = runpy.run_path(D + '/seeds.py')['S']
for sid, m in S.items():
    o = f'{V}/seeded/{sid}'; os.makedirs(o, exist_ok=True)
    cand = f'/tmp/cand/{sid}.diff'
    if os.path.exists(cand): shutil.copy(cand, o + '/patch.diff')
    shutil.copy(f'{D}/d/{sid}.cpp', o + '/demo.cpp')
    h = m.get('header', 'mini.h')
    if h: shutil.copy(f'{D}/{h}', o + '/' + h)
    t = open(D + '/demo.sh').read().replace('EXTRA', m.get('extra', '')).replace('ENVS', m.get('env', 'env'))
    open(o + '/demo.sh', 'w').write(t); os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': m['property'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(o + '/meta.json', 'w'), indent=1)
