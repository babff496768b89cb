import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
from sa import core
from sa.explore import Explorer
shims=()
a=sys.argv[1:]
if a[0].startswith('--shims='): shims=tuple(a.pop(0)[8:].split(','))
LE="-l" in a
UN=max([int(x[2:]) for x in a if x.startswith("-u")]+[0])
a=[x for x in a if not x.startswith("-u")]
a=[x for x in a if x!='-l']
NA=tuple(x for x in a if x.startswith("-"))
a=[x for x in a if not x.startswith("-")]
try: m=core.compile_ir(a[0],shims=shims,nsa_args=NA)
except core.CompileError as e:
    L=e.stderr.splitlines()
    for i in [i for i,l in enumerate(L) if "error:" in l][:5]: print("\n".join(x[:300] for x in L[i:i+12])); print("---")
    sys.exit(1)
for f in a[1:]:
    for g in sorted(m.fns):
        import fnmatch
        if fnmatch.fnmatch(g,f):
            ex=Explorer(m,g,loop_events=LE,unroll=UN); ex.run()
            print('==',g,len(ex.traces))
            for t in ex.traces: print('  ',t.show())
