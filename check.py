#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current sources."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import core  # noqa: E402

MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(core.VERIF, 'checks')) if f.endswith('.py') and f != '__init__.py')


def main():
    pid = sys.argv[1]
    for m in MODULES:
        mod = importlib.import_module('checks.' + m)
        if pid in mod.CHECKS:
            fn, minimum = mod.CHECKS[pid]
            chk = core.Check(pid, (fn.__doc__ or '').strip())
            try:
                fn(chk)
                return core.finish(chk, minimum)
            except core.CompileError as e:
                tagged = [l for l in e.errors() if f'[{pid}]' in l]
                if tagged:
                    for l in tagged:
                        chk.ob(False, 'type-level obligation', l)
                    return core.finish(chk, 0)
                inside = e.in_library()
                if inside:
                    for l in inside:
                        chk.ob(False, f'{e.wit}: the library code the property speaks about compiles for the witness types', l)
                    return core.finish(chk, 0)
                print(f'{pid}: analysis error: witness {e.wit} does not compile', file=sys.stderr)
                print('\n'.join(e.stderr.splitlines()[:40]), file=sys.stderr)
                return 2
            except core.AnalysisError as e:
                if core.unlisted(chk):
                    return core.finish(chk, 0)
                print(f'{pid}: analysis error: {e}', file=sys.stderr)
                return 2
            except Exception:
                if core.unlisted(chk):
                    return core.finish(chk, 0)
                traceback.print_exc()
                return 2
    print('unknown property ' + pid, file=sys.stderr)
    return 2


if __name__ == '__main__':
    sys.exit(main())
