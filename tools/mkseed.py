#!/usr/bin/env python3
"""Developer helper: mkseed.py FILE.py  -- writes seeded/<id>/ from a list of seed(...) calls."""
import json, os, shutil, subprocess as sp, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = ROOT + '/tools/seedlib/'
def seed(id, prop, needs, breaks, edits, demo, flags='', libs='', extra=()):
    if sp.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip():
        sys.exit('/repo is not clean')
    d = ROOT + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = '/repo/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'ANCHOR x%d in %s: %r' % (s.count(old), f, old[:60])); return
            open(p, 'w').write(s.replace(old, new))
        diff = sp.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        sp.run(['git', '-C', '/repo', 'checkout', '--', '.'], capture_output=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(open(LIB + 'demo.sh').read().replace('@FLAGS@ ', flags + (' ' if flags else '')).replace(' @LIBS@', (' ' if libs else '') + libs))
    for e in extra: shutil.copytree(LIB + e, d, dirs_exist_ok=True) if os.path.isdir(LIB + e) else shutil.copy(LIB + e, d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'ok')
if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
