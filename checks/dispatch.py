"""Following paths; choosing handlers."""
from sa import core, terms as T
from sa.terms import C

V, W, K, MISSING = 1, 2, 3, 3
NAMES = ['x', 'y', 'z', 'u', 'v']


class Run:
    def __init__(self, chk):
        self.chk, self.mod = chk, core.compile_ir('dispatch')

    def go(self, fn):
        ts = self.chk.explore(self.mod, fn).traces
        self.chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
        if ts:
            self.chk.sample(f'{fn}: {ts[0].show(NAMES)}'[:300])
        return [t for t in ts if t.kind == 'ret']

    def walk(self, fn, keys, const=0, start=1, at=('arg', 0), final=None, shows=(), tail=()):
        """the path through opaque stores: each key is looked up once, in the store found with the key before it; what is found last is handled"""
        chk = self.chk
        outcomes = set()
        for t in self.go(fn):
            es = [e for e in t.events if not (e.name == 'evt_r_addr' and e.targs[0] == 1) and not (e.name == 'evt_r_given' and e.targs[0] > 20)]
            bad = [e for e in t.evs('evt_r_given') if e.targs[0] > 20]
            chk.ob(not bad, f'{fn}: a store that stays is asked as one that stays', 'its parts may be taken away', trace=t, names=NAMES, loc=bad[0].loc if bad else None)
            i, n, here, cst, ok, what, how = 0, start, at, const, True, '', []

            def take(name, targs=None, args=None):
                nonlocal i
                if i < len(es) and es[i].name == name and (targs is None or list(es[i].targs) == list(targs)) and \
                        (args is None or all(w is None or a == w for a, w in zip(es[i].args, args))):
                    i += 1
                    return es[i - 1]
                return None
            def untouched(kind):
                bad = [e for e in es if e.name == 'evt_r_given' and kind != MISSING]
                chk.ob(not bad, f'{fn}: what a store keeps is handed to the handler as something that stays', 'it may be taken away', trace=t, names=NAMES, loc=bad[0].loc if bad else None)
                es[:] = [e for e in es if e.name != 'evt_r_given']
            kind, val, addr = 10 + n, None, here
            for k in keys:
                e = take('evt_step', (n, cst))
                if not e or (here is not None and e.args[0] != here) or e.args[1] != k:
                    ok, what = False, f'store {n} is to be asked for {T.show(k, NAMES)} once'
                    break
                c = take('evt_child', (n,))
                if not c:
                    ok, what = False, 'the witness shows the answer'
                    break
                how.append(c.args[0][1])
                if c.args[0] == C(0, 64):
                    kind, val, addr = MISSING, c.res, None
                    break
                if c.args[0] == C(1, 64):
                    kind, val, addr = V, c.res, take('evt_r_addr', (100 + n,)).args[0]
                    break
                if n == 4:
                    kind, val, addr = W, c.res, None
                    break
                here = addr = take('evt_r_addr', (200 + n,)).args[0]
                n, cst, kind, val = n + 1, 0, 11 + n, c.res
            outcomes.add(tuple(how))
            if ok:
                untouched(kind)
            if ok:
                if final:
                    want = final(kind)
                    if want is not None:
                        e = take('evt_handled', (want, kind), (val,))
                        ok, what = bool(e), f'handler {want} is to be called with what is found (alternative {kind})'
                else:
                    e = take('evt_r_seen', (kind, cst if not keys else 0), (val,))
                    a = take('evt_r_addr', (0,), (addr,))
                    ok, what = bool(e and a), f'the handler is to be called with what is found itself (alternative {kind})'
            for x in tail:
                if ok:
                    ok, what = bool(take('evt_out', None, (x,))), 'the path is left as it is'
            if ok and i != len(es):
                ok, what = False, f'nothing else happens, but {es[i].show(NAMES)}'
            chk.ob(ok, f'{fn}: each key is looked up once in the part found before it, and what is found is handled once', what, trace=t, names=NAMES,
                   loc=es[min(i, len(es) - 1)].loc if es else None)
        want = 2 * len(keys) + 1 if keys else 1
        chk.ob(len(outcomes) == want, f'{fn}: every answer of the stores is followed', f'{sorted(outcomes)}')

    def seen(self, fn, kind, const=None, value=None, here=True, given=False):
        """the handler gets that part itself, once"""
        for t in self.go(fn):
            es = t.evs('evt_r_seen')
            ok = len(es) == 1 and es[0].targs[0] == kind and (const is None or es[0].targs[1] == const)
            want = value if value is not None else (t.evs('evt_out') or [None])[0]
            want = want.args[0] if hasattr(want, 'args') else want
            self.chk.ob(ok and es[0].args[0] == want, f'{fn}: the part at that place is handled once, with its value', f'{[e.show(NAMES) for e in es]} instead of alternative {kind} with {T.show(want, NAMES)}', trace=t,
                        loc=es[0].loc if es else None)
            if here:
                a = {e.targs[0]: e.args[0] for e in t.evs('evt_r_addr')}
                self.chk.ob(a.get(0) == a.get(1) and 0 in a, f'{fn}: the part itself is handed out, not a copy', t.show(NAMES), trace=t)
            got = t.evs('evt_r_given')
            self.chk.ob(given or not got, f'{fn}: the part of something that stays is handed out as something that stays', 'it may be taken away', trace=t, names=NAMES, loc=got[0].loc if got else None)
            other = [e for e in t.events if e.name in ('evt_step', 'evt_handled')]
            self.chk.ob(not other, f'{fn}: nothing else is looked at', str([e.show() for e in other]), trace=t)


def c27(chk):
    """Paths of up to four keys through opaque stores with every answer at every step, through entities, optionals, aliases, references, tuples, pairs and
    maps: which store is asked for which key, what the handler finally gets (type, value, storage, constness), on every path."""
    r = Run(chk)
    A = [('arg', i) for i in range(5)]
    for n in range(5):
        r.walk(f'wit_path_{n}', A[1:n + 1])
    r.walk('wit_pathc_2', A[1:3], const=1)
    r.walk('wit_pathl_3', A[1:4], tail=A[1:4])
    r.walk('wit_pathk_3', A[1:4], tail=A[1:4])
    for fn, kind in (('x', 4), ('y', V), ('z', 4), ('xp', V), ('xq', W), ('zp', V), ('zq', W)):
        for f, const in (('ent', 0), ('entc', 1), ('getp', 0), ('getpc', 1)):
            r.seen(f'wit_{f}_{fn}', kind, const)
    r.seen('wit_opt_n', 10, 0)
    r.seen('wit_opt_some', W, value=('arg', 2), here=False)
    p3q = T.binop('add', 64, T.binop('mul', 64, ('arg', 1), C(3, 64)), ('arg', 2))
    r.seen('wit_opt_whole', 4, value=p3q, here=False)
    r.seen('wit_opt_none', 6, value=C(0, 64), here=False, given=True)
    for fn, const in (('wit_path_cell0', 0), ('wit_match_unit', 0), ('wit_match_unitc', 1), ('wit_match_refunit', 0), ('wit_alias_unit', 0)):
        r.seen(fn, V, const)
    for fn in ('wit_path_cell1', 'wit_match_key', 'wit_match_ref', 'wit_alias_key'):
        r.seen(fn, W, value=('arg', 1), here=False, given=True)
    r.seen('wit_path_value', V, 0)
    r.seen('wit_match_self', 11, 0)
    r.seen('wit_match_plain', V, 0)
    r.walk('wit_match_refstep', A[1:2], start=4)
    r.walk('wit_match_crefstep', A[1:2], start=4, const=1)
    r.walk('wit_alias_step', A[1:2], start=4, at=None)
    for t in r.go('wit_alias_step'):
        s, own = t.evs('evt_step'), [e for e in t.evs('evt_r_addr') if e.targs[0] == 1]
        chk.ob(s and own and s[0].args[0] == own[0].args[0], 'wit_alias_step: an alias stands for the store it holds', t.show(), trace=t)
    r.seen('wit_alias_state', W, 0)
    r.seen('wit_alias_match', V, 0)
    for fn, n in (('wit_alias_copy', 4), ('wit_calias', 4), ('wit_alias_write', 3)):
        for t in r.go(fn):
            chk.ob([e.args[0] for e in t.evs('evt_out')] == [('arg', 0)] * n, f'{fn}: an alias holds the value it is made of (or was written through it), and so does a copy', t.show(NAMES), trace=t)
            chk.ob(all(e.args[0] == C(0, 1) for e in t.evs('evt_flag')), f'{fn}: what must stay in place cannot be copied', t.show(NAMES), trace=t)
    for fn, k in (('tuple', W), ('tuple0', V), ('tuple2', 8), ('first', V), ('second', W), ('map', W), ('ref', V)):
        r.seen(f'wit_get_{fn}', k, 0)
    r.seen('wit_get_cref', W, 1)
    for t in r.go('wit_null'):
        chk.ob([e.args[0] for e in t.evs('evt_flag')] == [C(0, 1)], 'wit_null: a null store never changes', t.show(), trace=t)
    for fn, k, v in (('get', V, 2), ('path', W, 1), ('tuple', W, 1), ('match', V, 0), ('alias', V, 0)):
        r.seen(f'wit_give_{fn}', k, value=A[v], here=False, given=True)
    kept(chk, r, (('path', 6, 1), ('match', 4, 1), ('alias', 10, 0)))


def kept(chk, r, fns):
    """what was handed over by name is read again: it is as it was"""
    for fn, n, a in fns:
        for t in r.go(f'wit_own_{fn}'):
            out = t.evs('evt_out')
            bad = [e for e in out if e.args[0] != ('arg', a)]
            chk.ob(len(out) == n and not bad, f'wit_own_{fn}: what is handed over by name stays as it is, and holders have one of their own', f'{[T.show(e.args[0], NAMES) for e in out]}', trace=t, names=NAMES,
                   loc=bad[0].loc if bad else None)


def c28(chk):
    """Overload sets, tables of types, single-type handlers, variant holders and predicate lists (of run-time and static answers): which handler is
    called with what, in which order predicates are asked and when asking ends, on every path."""
    r = Run(chk)
    A = [('arg', i) for i in range(5)]
    r.walk('wit_over_1', A[1:2], final=lambda k: {V: 1, MISSING: 2}.get(k, 3) if k != 3 else 2)
    r.walk('wit_over_2', A[1:3], final=lambda k: 1 if k == MISSING else 2)
    r.walk('wit_over_4', A[1:5], final=lambda k: {W: 1, V: 2}.get(k, 3))
    r.walk('wit_table_step', A[1:2], start=4, final=lambda k: {W: 2, V: 1}.get(k, 9))
    r.walk('wit_when_step', A[1:2], start=4, final=lambda k: 1 if k == V else None)

    def handled(fn, want, v):
        for t in r.go(fn):
            es = t.evs('evt_handled')
            v_ = t.evs('evt_out')[0].args[0] if v is None else v
            ok = [(tuple(e.targs), e.args[0]) for e in es] == ([(want, v_)] if want else [])
            got = t.evs('evt_r_given')
            chk.ob(not got or fn in ('wit_table_v', 'wit_table_k', 'wit_when_v', 'wit_when_key'), f'{fn}: what stays is handed on as something that stays', 'it may be taken away', trace=t, loc=got[0].loc if got else None)
            chk.ob(ok, f'{fn}: the handler for that type is called once with the value; without one the fallback, or nothing',
                   f'{[e.show(NAMES) for e in es]} instead of handler {want}', trace=t, loc=es[0].loc if es else None)
    for fn, want in (('table_v', (1, V)), ('table_vl', (1, V)), ('table_w', (2, W)), ('table_k', (9, 8)), ('when_v', (1, V)), ('when_vl', (1, V)), ('when_w', None)):
        handled('wit_' + fn, want, A[0])
    handled('wit_when_unit', (1, V), None)
    handled('wit_when_key', (1, W), A[1])
    handled('wit_when_keyno', None, A[1])
    for i, kind in enumerate((V, W, MISSING)):
        for f, const in (('holder', 0), ('holderc', 1)):
            fn = f'wit_{f}_{i}'
            for t in r.go(fn):
                es = t.evs('evt_r_seen')
                chk.ob([(tuple(e.targs), e.args[0]) for e in es] == [((kind, const), A[0])] * 2, f'{fn}: the alternative held is handed out with its value, and stays', str([e.show(NAMES) for e in es]), trace=t)
                chk.ob(not t.evs('evt_r_given'), f'{fn}: the alternative held is handed out as something that stays', t.show(NAMES), trace=t)
                chk.ob([e.args[0] for e in t.evs('evt_index')] == [C(i, 64)], f'{fn}: the index is that of the alternative held', t.show(NAMES), trace=t)
                a = {e.args[0] for e in t.evs('evt_r_addr')}
                chk.ob(len(a) == 1, f'{fn}: the value itself is handed out each time', str(a), trace=t)

    kept(chk, r, (('when', 5, 0), ('whenk', 4, 1), ('table', 6, 0), ('if', 1, 0), ('ifp', 1, 0)))

    # predicates: None asks at run time, True/False are static answers
    lists = {'4': [None, None, None, None, True], '1': [None, True], '0': [True], 'mid': [None, False, None, True, None, True], 'no': [False, None, True]}
    for name, preds in lists.items():
        for f in ('if', 'ifp'):
            fn = f'wit_{f}_{name}'
            found = set()
            for t in r.go(fn):
                asked = t.evs('evt_pred')
                for e in asked:
                    chk.ob(e.args == (A[0],) or list(e.args) == [A[0]], f'{fn}: predicates are asked about the value', e.show(NAMES), trace=t, loc=e.loc)
                res = [e.res for e in asked]
                for w in T.worlds(t.facts, res):
                    if not T.allows(t.facts, w):
                        continue
                    order, want = [], None
                    for i, p in enumerate(preds):
                        if p is None:
                            if len(order) < len(asked) and asked[len(order)].targs[0] == i:
                                order.append(i)
                                if w[res[len(order) - 1]]:
                                    want = i
                            else:
                                break
                        elif p:
                            want = i
                        if want is not None:
                            break
                    chk.ob(want is not None and len(order) == len(asked), f'{fn}: predicates are asked in order, each once, until one holds',
                           f'asked {[e.targs[0] for e in asked]} and got {[w[x] for x in res]}', trace=t)
                    if want is not None:
                        found.add(want)
                        got = [T.evaluate(e.args[0], w) for e in t.evs('evt_index')]
                        chk.ob(len(got) == 1 and T.is_c(got[0]) and got[0][1] == want, f'{fn}: the first predicate that holds is chosen', f'{[T.show(g) for g in got]} instead of {want}', trace=t)
                        if f == 'ifp':
                            ch = [e.targs[0] for e in t.evs('evt_chosen')]
                            chk.ob(ch == [want] or [T.evaluate(e.args[0], w) for e in t.evs('evt_index')] == [C(want, 64)] and len(ch) == 1 and ch == [want],
                                   f'{fn}: its position is known statically to the next step', f'{ch} instead of {want}', trace=t)
            last = preds.index(True)
            chk.ob(found == {i for i in range(last + 1) if preds[i] is not False}, f'{fn}: every choice occurs', str(found))


CHECKS = {'C27': (c27, 150), 'C28': (c28, 100)}
