#!/bin/bash
# b.sh wit [shim...]
cd /verif; python3 - "$@" <<'P'
import sys; sys.path.insert(0,'/verif')
from sa import core
try:
    m=core.compile_ir(sys.argv[1], shims=tuple(sys.argv[2:]))
    print(len(m.fns),'fns')
except core.CompileError as e:
    L=e.stderr.splitlines()
    idx=[i for i,l in enumerate(L) if 'error:' in l]
    for i in idx[:6]:
        print('\n'.join(x[:300] for x in L[i:i+14])); print('---')
P
