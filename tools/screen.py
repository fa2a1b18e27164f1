#!/usr/bin/env python3
"""screen.py CANDS.py [id...]: makes patches of the candidate planted bugs, checks that they touch only lines of the
original repository, apply, build, and survive the stable tests.  Works on /repo itself and restores it."""
import sys, os, subprocess, json, runpy
R = '/repo'; BASE = '4838f97'
OUT = '/tmp/cand'
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def main():
    ns = runpy.run_path(sys.argv[1]); only = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if 0 else None
    os.makedirs(OUT, exist_ok=True)
    res = {}
    for cid, edits in ns['C'].items():
        if only and cid not in only: continue
        assert not sh('git', '-C', R, 'status', '--short').stdout.strip()
        try:
            bad = None
            for f, old, new in edits:
                p = os.path.join(R, f); s = open(p).read()
                if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches'; break
                ln = s[:s.index(old)].count('\n') + 1
                open(p, 'w').write(s.replace(old, new))
            if bad: print(cid, 'BAD', bad); continue
            d = sh('git', '-C', R, 'diff').stdout
            open(f'{OUT}/{cid}.diff', 'w').write(d)
            # originality of the removed lines
            orig = True; cur = None; n = 0; any_removed = False
            for line in d.splitlines():
                if line.startswith('--- a/'): cur = line[6:]
                elif line.startswith('@@'): n = int(line.split()[1][1:].split(',')[0])
                elif line.startswith('-') and not line.startswith('---'):
                    any_removed = True
                    b = sh('git', '-C', R, 'blame', '-s', '-L', f'{n},{n}', 'HEAD', '--', cur).stdout
                    if not b.lstrip('^').startswith(BASE): orig = False; print('   not original:', b.strip())
                    n += 1
                elif line.startswith(' '): n += 1
            if os.path.exists('/tmp/scr.json'): os.remove('/tmp/scr.json')
            b = sh('bash', '/opt/vp/build.sh')
            if b.returncode: print(cid, 'BUILD FAILED', (b.stdout + b.stderr)[-400:]); continue
            sh('timeout','150','bash', '/opt/vp/test.sh', '/tmp/scr.json')
            if not os.path.exists('/tmp/scr.json'): print(cid, 'HANGS'); continue
            t = json.load(open('/tmp/scr.json'))
            failed = t['failed'] if not isinstance(t['failed'], int) else [t['failed']]
            print(cid, 'SURVIVES' if not failed else f'killed by {len(failed)}: {failed[:2]}', '' if orig else 'NOT-ORIGINAL', '' if any_removed else 'ADDS-ONLY', flush=True)
        finally:
            sh('git', '-C', R, 'checkout', '--', '.')
    sh('bash', '/opt/vp/build.sh')
main()
