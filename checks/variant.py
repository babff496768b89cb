"""Variants and optionals."""
from sa import core, terms as T
from sa.terms import C

X, Y = ('arg', 0), ('arg', 1)
N = ['x', 'y']
NID = ['id', 'x']


def c15(chk):
    """For every alternative a variant can hold (opaque values, empty types, nested variants, keyed stores): what a visitor sees, what the
    variant says it is, conditional access, equality, binding out and in for every id, copies, moves and optionals, on every path."""
    mod = core.compile_ir('variant')
    held = {0: C(0, 64), 1: X, 2: X, 3: C(0, 64)}

    def go(fn):
        ts = chk.explore(mod, fn).traces
        chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
        return ts

    def seen(t, fn, kind, const, v, ev='evt_seen', others=('evt_seen', 'evt_when', 'evt_keyed'), word='the visitor is called once, with the alternative held and its value'):
        es = [e for e in t.events if e.name in others]
        ok = len(es) == 1 and es[0].name == ev and es[0].targs[0] == kind and (const is None or es[0].targs[1] == const) and es[0].args[0] == v
        chk.ob(ok, f'{fn}: {word}', f'{[e.show(N) for e in es]} instead of alternative {kind} with {T.show(v, N)}', trace=t, names=N)

    def state(t, fn, kind, v, slot=0, word='visiting leaves the variant as it is'):
        es = [e for e in t.evs('evt_state') if e.targs[0] == slot]
        chk.ob(len(es) == 1 and es[0].args == (C(kind, 32), v) or len(es) == 1 and list(es[0].args) == [C(kind, 32), v], f'{fn}: {word}',
               str([e.show(N) for e in es]), trace=t, names=N)

    for k in range(4):
        v = held[k]
        for t in go(f'wit_id_{k}'):
            chk.ob([e.args[0] for e in t.evs('evt_id')] == [C(k, 32)], f'wit_id_{k}: the type id is the position of the alternative held', t.show(), trace=t)
        for f, const in (('visit', 1), ('visitm', 0), ('match', 1), ('matchm', 0), ('matchr', None)):
            fn = f'wit_{f}_{k}'
            for t in go(fn):
                seen(t, fn, k, const, v)
                if const is not None:
                    state(t, fn, k, v)
                chk.sample(f'{fn}: {t.show(N)}')
        for f in ('select', 'selectfn'):
            fn = f'wit_{f}_{k}'
            for t in go(fn):
                seen(t, fn, k, None, v, ev='evt_when' if k < 3 else 'evt_seen', word='the first handler for the alternative held is called, and no other')
        for t in go(f'wit_is_{k}'):
            got = {e.targs[0]: e.args[0] for e in t.evs('evt_is')}
            chk.ob(got == {i: C(int(i == k), 1) for i in range(4)}, f'wit_is_{k}: a variant is the alternative it holds and no other', str(got), trace=t)
        for w, f in [(w, f) for w in (0, 1, 2, 3, 9) for f in ('when', 'whenk')]:
            fn = f'wit_{f}_{k}_{w}'
            for t in go(fn):
                if w == k:
                    seen(t, fn, k, int(w in (0, 2)), v, ev='evt_when', word='conditional access calls once with the value if that alternative is held')
                else:
                    chk.ob(not t.evs('evt_when'), f'{fn}: conditional access does nothing if another alternative is held', t.show(N), trace=t, names=N)
                state(t, fn, k, v)
        for t in go(f'wit_copy_{k}'):
            for slot in range(3):
                state(t, f'wit_copy_{k}', k, v, slot, 'copies hold the same and leave the original as it is')
        for t in go(f'wit_move_{k}'):
            for slot in (1, 2):
                state(t, f'wit_move_{k}', k, v, slot, 'moving takes the alternative along')
        fn = f'wit_bind_{k}'
        for t in go(fn):
            es = t.evs('evt_out')
            ok = len(es) == 1 and es[0].args[0] == C(k, 32) and es[0].targs[0] == (k if k in (1, 2) else 99) and es[0].args[1] == v
            chk.ob(ok, f'{fn}: binding yields the type id with the value held (empty alternatives: the id alone)', str([e.show(N) for e in es]), trace=t, names=N)
            state(t, fn, k, v)
        for j in range(4):
            for f in ('equal', 'nequal'):
                fn = f'wit_{f}_{k}_{j}'
                for t in go(fn):
                    for w in T.worlds(t.facts, [T.icmp('eq', X, Y)]):
                        eq = w.get(T.icmp('eq', X, Y))
                        want = k == j and (k in (0, 3) or eq)
                        got = [T.evaluate(e.args[0], w) for e in t.evs('evt_equal')]
                        chk.ob(got == [C(int(want), 1)], f'{fn}: variants are equal exactly when they hold the same alternative with equal values',
                               f'{[T.show(g, N) for g in got]} instead of {want}', trace=t, names=N)
    for f in ('bool', 'char', 'small', 'long'):
        fn = f'wit_eqs_{f}'
        for t in go(fn):
            for p in ((0, 0), (0, 1), (1, 0), (1, 1)):
                w = {X: C(p[0], {'char': 8, 'long': 64}.get(f, 1)), Y: C(p[1], {'char': 8, 'long': 64}.get(f, 1))}
                if T.allows(t.facts, w):
                    got = [T.evaluate(e.args[0], w) for e in t.evs('evt_equal')]
                    chk.ob(got == [C(int(p[0] == p[1]), 1)], f'{fn}: values of any type and size are equal exactly when they are',
                           f'{[T.show(g, N) for g in got]} for {p}', trace=t, names=N)
    for t in go('wit_fresh'):
        state(t, 'wit_fresh', 0, C(0, 64), 0, 'a new variant holds its first alternative')

    # for every id
    def by_id(fn, what):
        ts = go(fn)
        ids = sorted({p for t in ts for p in T.points(t.facts, 32)})
        for n in ids:
            live = [t for t in ts if T.allows(t.facts, {X: C(n, 32)})]
            chk.ob(bool(live), f'{fn}: {what}', f'no path for id {n}')
            yield n, [(t, lambda e: T.evaluate(e, {X: C(n, 32)})) for t in live]
    for n, live in by_id('wit_bytype', 'every id is handled'):
        for t, ev in live:
            es = [e.targs[0] for e in t.evs('evt_type')]
            chk.ob(es == ([n] if n < 4 else []), 'wit_bytype: an id selects the type at its position once, ids out of range none', f'id {n} selects {es}', trace=t, names=NID)
            st = [tuple(e.args) for e in t.evs('evt_state')]
            chk.ob(st == [(C(2, 32), Y)], 'wit_bytype: selecting a type leaves the variant as it is', str(st), trace=t, names=NID)
    for n, live in by_id('wit_in', 'every id is handled'):
        for t, ev in live:
            es = t.evs('evt_in')
            st = [tuple(ev(a) for a in e.args) for e in t.evs('evt_state')]
            if n >= 4:
                chk.ob(not es and st == [(C(1, 32), Y)], 'wit_in: binding with an id out of range leaves the variant as it is', t.show(NID), trace=t, names=NID)
                continue
            kind = {0: 99, 1: 11, 2: 12, 3: 99}[n]
            chk.ob(len(es) == 1 and es[0].targs[0] == kind and ev(es[0].args[0]) == C(n, 32) and es[0].args[1] == C(0, 64),
                   'wit_in: binding with an id lets the alternative it names be filled, starting from a new one', t.show(NID), trace=t, names=NID)
            want = (C(n, 32), ('res', 'evt_in', (kind,), 0) if n in (1, 2) else C(0, 64))
            chk.ob(st == [want], 'wit_in: binding with an id makes the variant hold that alternative as filled', str([tuple(T.show(a, NID) for a in x) for x in st]), trace=t, names=NID)

    # nested
    for sfx, const in (('', 1), ('m', 0)):
        for k, (kind, v) in {0: (0, C(0, 64)), 1: (1, X)}.items():
            fn = f'wit_nest{sfx}_{k}'
            for t in go(fn):
                seen(t, fn, kind, const, v)
        fn = f'wit_nest{sfx}_5'
        for t in go(fn):
            ok = [e.name for e in t.events] == ['evt_keyed', 'evt_seen'] and t.events[0].targs[0] == const and list(t.events[0].args) == [X, Y] and t.events[1].targs[0] == 9
            chk.ob(ok, f'{fn}: a store held by a variant is read with the key given', t.show(N), trace=t, names=N)
        for k, (kind, v) in {0: (0, C(0, 64)), 1: (1, X), 2: (7, X), 3: (8, X), 4: (6, C(0, 64))}.items():
            fn = f'wit_deep{sfx}_{k}'
            for t in go(fn):
                seen(t, fn, kind, const, v, word='a variant held by a variant is seen through')

    # optionals
    def opt(t, fn, some):
        want = [('evt_id', (), (C(int(some), 32),)), ('evt_is', (6,), (C(int(not some), 1),)), ('evt_is', (1,), (C(int(some), 1),)),
                ('evt_seen', (1 if some else 6,), (X if some else C(0, 64),))]
        env = {('arg', 1): some}
        got = [(e.name, tuple(e.targs[:1]), tuple(T.evaluate(a, env) for a in e.args)) for e in t.events if e.name != 'evt_state']
        chk.ob(got == want, f'{fn}: an optional holds the value given or nothing', t.show(['x', 'cond']), trace=t, names=['x', 'cond'])
        for e in t.evs('evt_state'):
            chk.ob(e.args[1] == X, f'{fn}: making an optional of a value leaves that value as it is', e.show(['x']), trace=t, names=['x'])
    for fn in ('wit_opt', 'wit_optc', 'wit_optr'):
        for t in go(fn):
            opt(t, fn, True)
    for t in go('wit_optnone'):
        opt(t, 'wit_optnone', False)
    for fn in ('wit_optif', 'wit_optifc', 'wit_optifr'):
        for t in go(fn):
            for c in (True, False):
                if T.allows(t.facts, {('arg', 1): c}):
                    opt(t, fn, c)
    # optionals of small values: whether there is one does not depend on which
    for ty, bits in (('bool', 1), ('char', 8), ('long', 64)):
        for fn in (f'wit_optv_{ty}', f'wit_optvif_{ty}'):
            for t in go(fn):
                for x in (0, 1):
                    for c in ((1, 0) if 'if' in fn else (1,)):
                        env = {X: C(x, bits), ('arg', 1): C(c, 1)}
                        if not T.allows(t.facts, env):
                            continue
                        got = [(e.name, T.evaluate(e.args[0], env)) for e in t.events]
                        want = [('evt_id', C(c, 32))] + ([('evt_seen', C(x, 64))] if c else [])
                        chk.ob(got == want, f'{fn}: an optional holds the value given or nothing, whatever the value is', f'{got} for {x}, {c}', trace=t, names=['x', 'cond'])


CHECKS = {'C15': (c15, 250)}
