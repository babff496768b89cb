"""Stores: keyed store, composed stores, local versions, deltas."""
from sa import core, terms as T
from sa.terms import C

NAMES = ['key1', 'key2', 'uid', 'payload', 'held', 'other1', 'other2', 'otherheld']
P, V0, OV = ('arg', 3), ('arg', 4), ('arg', 7)
ABSENT, UNRES, VALUE, NOTF = 0, 1, 2, 3


def c11(chk):
    """For each of nine messages, applied as lvalue and rvalue to the two keyed store types, and each of the four states an entry can be in:
    final entry, reported change and untouched rest follow the transition table, on every path; the container is replaced by its finite
    abstraction (entry of the key under consideration, any other entry), so the obligation covers every container content."""
    mod = core.compile_ir('map_store', shims=('cont',))

    def entry(init):
        return {ABSENT: (0, 0, None), UNRES: (1, 0, None), VALUE: (1, 1, V0), NOTF: (1, 2, None)}[init]

    def after(msg, init):
        """(entry, changed)"""
        if msg[0] == 'u':
            if msg == 'ur' and init == ABSENT:
                return entry(UNRES), 0
            return entry(init), 0
        if msg in ('dc', 'du'):
            return (1, 1, P), 1
        if msg == 'dd':
            return (0, 0, None), 1
        if init in (ABSENT, UNRES):
            return ((1, 1, P) if msg == 'dr' else (1, 2, None)), 1
        return entry(init), 0

    def holds(e, w):
        has, kind, v = w
        if e.args[0] != C(has, 1):
            return False
        return not has or (e.args[1] == C(kind, 32) and (v is None or e.args[2] == v))

    def rest(t, fn, init_entry):
        for e in t.evs('evt_map'):
            chk.ob(False, f'{fn}: no other key of the store is touched', e.show(NAMES), loc=e.loc, trace=t, names=NAMES)
        st = {e.targs[0]: e for e in t.evs('evt_state')}
        if not chk.ob(set(st) == {0, 1}, f'{fn}: final state reached', t.kind, trace=t, names=NAMES):
            return None
        chk.ob(holds(st[1], (1, 1, OV)), f'{fn}: entries of other keys stay as they are', st[1].show(NAMES), trace=t, names=NAMES)
        chk.ob(holds(st[0], init_entry), f'{fn}: the entry ends up as the protocol says', f'{st[0].show(NAMES)} instead of {init_entry}', trace=t, names=NAMES)
        return st

    for s in ('store', 'bstore'):
        for init in range(4):
            for msg in ('uc', 'ur', 'uu', 'ud', 'dc', 'dr', 'dn', 'du', 'dd'):
                for lv in ('', 'L'):
                    fn = f'wit_{lv}{msg}_{s}_{init}'
                    w, ch = after(msg, init)
                    ts = chk.explore(mod, fn).traces
                    chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
                    for t in ts:
                        rest(t, fn, w)
                        c = t.evs('evt_changed')
                        chk.ob(len(c) == 1 and c[0].args[0] == C(ch, 1), f'{fn}: reports {"a" if ch else "no"} change',
                               str([x.show(NAMES) for x in c]), trace=t, names=NAMES)
                        if fn == 'wit_dr_store_1':
                            chk.sample(f'{fn}: {t.show(NAMES)}')
            for q in ('match', 'cmatch'):
                fn = f'wit_{q}_{s}_{init}'
                ts = chk.explore(mod, fn).traces
                chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
                for t in ts:
                    rest(t, fn, entry(init))
                    seen = t.evs('evt_seen')
                    kind = {ABSENT: 3, UNRES: 0, VALUE: 1, NOTF: 2}[init]
                    ok = len(seen) == 1 and seen[0].targs[0] == kind and (kind != 1 or seen[0].args[0] == V0)
                    chk.ob(ok, f'{fn}: the reader is called once with what the store holds for the key', str([x.show(NAMES) for x in seen]), trace=t, names=NAMES)
                    if q == 'cmatch' and ok and init != ABSENT:
                        chk.ob(seen[0].targs[1] == 1, f'{fn}: a const store hands out const values', seen[0].show(NAMES), trace=t, names=NAMES)
        fn = f'wit_keys_{s}'
        for t in chk.explore(mod, fn).traces:
            same = {T.icmp('eq', ('arg', 0), ('arg', 5)), T.icmp('eq', ('arg', 1), ('arg', 6))}
            bad = t.evs('evt_mixed_up') if not all(t.facts.get(x) is True for x in same) else []
            chk.ob(not bad, f'{fn}: different keys are different entries, equal keys the same', 'taken for the same', trace=t, names=NAMES)
        fn = f'wit_empty_{s}'
        for t in chk.explore(mod, fn).traces:
            for e in t.evs('evt_state'):
                chk.ob(e.args[0] == C(0, 1), f'{fn}: a store starts out empty', e.show(NAMES), trace=t, names=NAMES)


LV = ['uid.a', 'uid.b', 'other.a', 'other.b', 'delta', 'value', 'confirmed']


def c13(chk):
    """For unconfirmed and confirmed changes, applied to a local version in each of the four states (this change pending or not, others pending
    or not; the set of pending changes is replaced by its finite abstraction): which of value and pending changes the delta is applied to, in
    which order, what stays pending and what is reported, on every path."""
    mod = core.compile_ir('local_version', shims=('cont',))
    D, V, CONF, PEND, FRESH = ('arg', 4), ('arg', 5), ('arg', 6), C(77, 64), C(-9, 64)
    for m in ('uu', 'uc', 'du', 'dc'):
        for has in (0, 1):
            for oth in (0, 1):
                for lv in ('', 'L'):
                    fn = f'wit_{lv}{m}_{has}{oth}'
                    ts = chk.explore(mod, fn).traces
                    chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
                    confs = set()
                    for t in ts:
                        conf = False if m[0] == 'u' else t.facts.get(CONF)
                        confs.add(conf)
                        for e in t.evs('evt_set'):
                            chk.ob(False, f'{fn}: only the uid of the message is looked up', e.show(LV), loc=e.loc, trace=t, names=LV)
                        ap = [(e.targs[0], e.args[0]) for e in t.evs('evt_apply')]
                        res = t.evs('evt_result')
                        loc = {e.targs[0]: e.args[0] for e in t.evs('evt_local')}
                        pend = t.evs('evt_pending')
                        val = t.evs('evt_value')
                        if not chk.ob(len(res) == 1 and len(loc) == 2 and len(pend) == 1 and len(val) == 1 and conf in (True, False),
                                      f'{fn}: effect depends on whether the change is confirmed', t.show(LV)[:300], trace=t, names=LV):
                            continue
                        vres = ('res', 'evt_apply', (0, 0), 0)
                        chk.ob(bool(ap) and ap[0] == (1, D) and [a for a in ap if a[0] == 1] == [(1, D)],
                               f'{fn}: every change is recorded among the pending changes once, before anything else', str([(a, T.show(b, LV)) for a, b in ap]), trace=t, names=LV)
                        va = [b for a, b in ap if a == 0]
                        if not conf:
                            want, left, p, r = [D], (1, oth), PEND, vres
                            word = 'a local change takes effect at once'
                        elif not has:
                            want, left, p, r = [D], (0, oth), PEND, vres
                            word = 'a foreign change takes effect at once'
                        elif oth:
                            want, left, p, r = [], (0, 1), PEND, C(0, 1)
                            word = 'a confirmation does not touch the value while other changes are pending'
                        else:
                            want, left, p, r = [PEND], (0, 0), FRESH, vres
                            word = 'the last confirmation brings all pending changes into the value'
                        chk.ob(va == want, f'{fn}: {word}', str([T.show(b, LV) for b in va]), trace=t, names=LV)
                        chk.ob((loc[0], loc[1]) == (C(left[0], 1), C(left[1], 1)), f'{fn}: the set of changes awaiting confirmation',
                               f'{[T.show(x) for x in loc.values()]} instead of {left}', trace=t, names=LV)
                        chk.ob(pend[0].args[0] == p, f'{fn}: pending changes {"start over" if p == FRESH else "are kept"}', T.show(pend[0].args[0], LV), trace=t, names=LV)
                        chk.ob(res[0].args[0] == r or t.fact(r) in (True, False) and res[0].args[0] == C(int(t.fact(r)), 1), f'{fn}: reports a change exactly when the value changed', T.show(res[0].args[0], LV), trace=t, names=LV)
                        if fn == 'wit_du_11':
                            chk.sample(f'{fn} [confirmed={conf}]: {t.show(LV)}')
                    if m[0] == 'd':
                        chk.ob(confs == {True, False}, f'{fn}: confirmed and unconfirmed changes are told apart', str(confs))
    for t in chk.explore(mod, 'wit_fresh').traces:
        chk.ob([e.args[0] for e in t.events] == [C(0, 1), C(0, 1), FRESH, ('arg', 0)], 'a new local version has the value it was made with and nothing pending', t.show())
    for t in chk.explore(mod, 'wit_look').traces:
        chk.ob([e.args[0] for e in t.evs('evt_value')] == [('arg', 0)], 'reading a local version reads its value', t.show())


DN = ['d.a', 'd.b', 'd.c', 'o.a', 'o.b', 'o.c']


def c14(chk):
    """For every subset of members a delta can carry and opaque member values: which members change, to what, and what is reported, on every
    path and in every world (truth assignment of member equality) the path admits; includes making deltas, merging them and the round trip law."""
    mod = core.compile_ir('delta')
    new, old = [('arg', i) for i in range(3)], [('arg', i + 3) for i in range(3)]
    eq = [T.icmp('eq', a, b) for a, b in zip(new, old)]

    def go(fn, body):
        ts = chk.explore(mod, fn).traces
        chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
        n = 0
        for t in ts:
            for w in T.worlds(t.facts, eq):
                n += 1
                body(t, [w.get(e) for e in eq], lambda x, w=w: T.evaluate(x, w))
        chk.ob(n > 0, f'{fn}: has a path', '')

    def same(i, x, want, equal):
        """x is member i's value want, given whether new and old values are equal"""
        return x == want or (equal[i] and x in (new[i], old[i]) and want in (new[i], old[i]))

    def parts(t, fn, want, equal, ev, what):
        es = {e.targs[0]: e for e in t.evs('evt_part')}
        if not chk.ob(set(es) == {0, 1, 2}, f'{fn}: {what}', t.kind, trace=t, names=DN):
            return
        for i in range(3):
            has, v = ev(es[i].args[0]), ev(es[i].args[1])
            ok = has == (T.FALSE if want[i] is None else T.TRUE) and (want[i] is None or same(i, v, want[i], equal))
            chk.ob(ok, f'{fn}: {what} (member {i})', f'{es[i].show(DN)} instead of {"nothing" if want[i] is None else T.show(want[i], DN)}',
                   loc=es[i].loc, trace=t, names=DN)

    def members(t, fn, want, equal, ev, what, at=0):
        es = t.evs('evt_member')[at:at + 3]
        if not chk.ob([e.targs[0] for e in es] == [0, 1, 2], f'{fn}: {what}', t.kind, trace=t, names=DN):
            return
        for i in range(3):
            chk.ob(same(i, ev(es[i].args[0]), want[i], equal), f'{fn}: {what} (member {i})', f'{es[i].show(DN)} instead of {T.show(want[i], DN)}', trace=t, names=DN)

    def result(t, fn, want, ev):
        r = t.evs('evt_result')
        chk.ob(len(r) == 1 and ev(r[0].args[0]) == (T.TRUE if want else T.FALSE), f'{fn}: reports a change exactly when a member changed',
               f'{[x.show(DN) for x in r]} instead of {want}', trace=t, names=DN)

    go('wit_fresh', lambda t, q, ev: parts(t, 'wit_fresh', [None] * 3, q, ev, 'a new delta is empty'))
    for fn in ('wit_make1', 'wit_make1l', 'wit_make1m'):
        def b(t, q, ev):
            parts(t, fn, new, q, ev, 'a delta of one version carries all its members')
            if fn != 'wit_make1m':
                members(t, fn, new, q, ev, 'the version stays as it is')
        go(fn, b)
    for fn in ('wit_make2', 'wit_make2l', 'wit_make2m'):
        def b(t, q, ev):
            parts(t, fn, [None if q[i] else new[i] for i in range(3)], q, ev, 'a delta carries the new values of the members that differ, and no others')
            if fn != 'wit_make2m':
                members(t, fn, new, q, ev, 'the new version stays as it is')
                members(t, fn, old, q, ev, 'the old version stays as it is', 3)
        go(fn, b)
    for bits in range(8):
        has = [bits >> 2 & 1, bits >> 1 & 1, bits & 1]
        x = ''.join(map(str, has))
        for fn in (f'wit_apply_{x}', f'wit_applyl_{x}', f'wit_applym_{x}'):
            def b(t, q, ev):
                members(t, fn, [new[i] if has[i] else old[i] for i in range(3)], q, ev, 'members in the delta get its value, others keep theirs')
                result(t, fn, any(has[i] and not q[i] for i in range(3)), ev)
                if not fn.startswith('wit_applym'):
                    parts(t, fn, [new[i] if has[i] else None for i in range(3)], q, ev, 'the delta stays as it is')
            go(fn, b)
        fn = f'wit_mergel_{x}'
        go(fn, lambda t, q, ev: parts(t, fn, [new[i] if has[i] else None for i in range(3)], q, ev, 'the delta that is merged stays as it is'))
        for o in (0, 1):
            fn = f'wit_merge_{x}_{o}'
            go(fn, lambda t, q, ev: parts(t, fn, [new[i] if has[i] else old[i] if o else None for i in range(3)], q, ev,
                                          'a merged delta has the later value of members in both, and members of either'))

    def law(t, q, ev):
        members(t, 'wit_law', new, q, ev, 'the difference applied to the older version gives the newer one')
        result(t, 'wit_law', not all(q), ev)
        chk.sample('wit_law: ' + t.show(DN))

    def again(t, q, ev):
        result(t, 'wit_again', False, ev)
        members(t, 'wit_again', [new[0], old[1], new[2]], q, ev, 'applying a delta twice is applying it once')
    go('wit_law', law)
    go('wit_again', again)


CHECKS = {'C14': (c14, 900), 'C13': (c13, 500), 'C11': (c11, 600)}
