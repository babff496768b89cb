#!/usr/bin/env python3
"""Developer helper: apply planted changes to /repo, one by one, and report what notices them.
usage: seedtest.py [--no-build] [--all-checks] ID...   (every change is undone afterwards)"""
import json, os, subprocess as sp, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, 'seeded')
base = {t if isinstance(t, str) else t.get('name') for t in
        (lambda d: d.get('tests') or d.get('stable') or d.get('passed') or d)(json.load(open('/opt/vp/BASELINE.json')))}

def run(cmd, t=900, **k):
    try:
        return sp.run(cmd, capture_output=True, text=True, timeout=t, **k)
    except sp.TimeoutExpired:
        return sp.CompletedProcess(cmd, 99, '', 'timeout')

def undo():
    sp.run(['git', '-C', '/repo', 'checkout', '--', '.'], capture_output=True)

def main(a):
    build = '--no-build' not in a
    allc = '--all-checks' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(SEEDS))
    if sp.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
        sys.exit('/repo is not clean')
    man = {c['property']: c for c in
           json.load(open(ROOT + '/MANIFEST.json'))['checks']}
    for i in ids:
        d = os.path.join(SEEDS, i)
        meta = json.load(open(d + '/meta.json'))
        out = [i, meta['property']]
        dm0 = run(['bash', d + '/demo.sh'], 300, cwd='/repo')
        out.append('demo0=%d' % dm0.returncode)
        try:
            ap = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
            if ap.returncode:
                out.append('APPLY FAILED ' + ap.stderr[:200]); print(*out); continue
            if build:
                run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'], 1500)
                r = json.load(open('/tmp/seedtest.json'))
                passed = set(r.get('passed') or r.get('pass') or [])
                miss = base - passed
                out.append('tests=%d/%d %s' % (len(base) - len(miss), len(base), sorted(miss)[:3] if miss else ''))
            dm = run(['bash', d + '/demo.sh'], 300, cwd='/repo')
            out.append('demo1=%d' % dm.returncode)
            if dm.returncode == 0 or dm0.returncode:
                out.append('DEMO BAD: ' + (dm.stdout + dm.stderr + dm0.stdout + dm0.stderr)[-600:])
            for p in ([meta['property']] if not allc else sorted(man)):
                t = time.time()
                c = run(['python3', ROOT + '/check.py', p], 900, cwd=ROOT)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                if c.returncode or p == meta['property']:
                    out.append('%s: exit=%d %ds %s' % (p, c.returncode, time.time() - t, 'CAUGHT' if c.returncode == 1 and v else 'MISSED'))
                    if c.returncode not in (0, 1):
                        out.append((c.stdout + c.stderr)[-500:])
        finally:
            undo()
        print(*out, flush=True)
main(sys.argv[1:])
