"""Composed stores, actions and the stores of a context."""
from sa import core, terms as T
from sa.terms import C

A = lambda i: ('arg', i)  # noqa: E731
CN = ['base', 'v1', 'v2', 'v3', 'v4', 'key', 'action']


def go(chk, mod, fn):
    ts = chk.explore(mod, fn).traces
    chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
    return ts


def outcome(t):
    """the result reported: a term; static results are constants"""
    r = [C(e.targs[0], 1) if e.name == 'evt_static' else e.args[0] for e in t.evs('evt_static', 'evt_result')]
    return r[0] if len(r) == 1 else None


def effects(t):
    return [(e.name, tuple(e.targs), tuple(e.args)) for e in t.events if e.name not in ('evt_slot', 'evt_static', 'evt_result')]


def slots(t):
    return {e.targs[0]: e.args[0] for e in t.evs('evt_slot')}


def c12(chk):
    """For a store composed of a keyed base and five values (a plain value, a variant, a store without keys, a reference, and one whose key is
    taken again further out): what each key reads, as lvalue and const, and what each action changes and reports, on every path."""
    mod = core.compile_ir('compose')
    init = {1: A(1), 2: A(2), 3: A(3), 4: A(4), 5: C(77, 64), 6: A(0), 7: C(1, 64)}
    for f, const in (('look', 0), ('clook', 1), ('klook', 1)):
        for k in range(1, 6):
            fn = f'wit_{f}_{k}'
            want = {1: [('evt_seen', (1, const), (A(1),))], 2: [('evt_seen', (2, const), (A(2),))],
                    3: [('evt_cell_match', (const,), (A(3),)), ('evt_seen', (1, 0), (A(3),))],
                    5: [('evt_base_match', (const, 5), (A(0), A(5))), ('evt_seen', (9, 0), (A(0),))]}
            for t in go(chk, mod, fn):
                got = effects(t)
                ok = got == want[k] if k != 4 else len(got) == 1 and got[0][0] == 'evt_seen' and got[0][1][0] in (22, 1) and got[0][2] == (A(4),)
                word = {1: 'a value is read with its key; the outermost wins', 2: 'a variant composed in is seen through', 3: 'a store composed in is read by its key alone',
                        4: 'a reference composed in is read by its key', 5: 'any other key is read from the base store, key intact'}[k]
                chk.ob(ok, f'{fn}: {word}', t.show(CN), trace=t, names=CN)
                chk.ob(slots(t) == init, f'{fn}: reading changes nothing', str({s: T.show(x, CN) for s, x in slots(t).items()}), trace=t, names=CN)
    a = A(6)
    act = {'base': ([('evt_base_action', (0,), (A(0), a))], {}, ('res', 'evt_base_action', (0,), 0), 'a plain action is passed to the base store'),
           'none': ([('evt_base_action', (1,), (A(0), a))], {}, ('res', 'evt_base_action', (1,), 0), 'an action for an unknown key is passed on to the base store'),
           'set1': ([], {1: a}, T.TRUE, 'an action for a key changes the value of that key only'),
           'fun1': ([('evt_call', (1, 0), (a, A(1)))], {1: a}, T.TRUE, 'an action for a key is called with the value of that key only'),
           'set2': ([], {2: a}, T.TRUE, 'an action for a key changes the value of that key only'),
           'act3': ([('evt_cell_action', (), (A(3), a))], {}, ('res', 'evt_cell_action', (), 0), 'an action for a key is applied to the store of that key only'),
           'fun4': ([('evt_call', (4, 0), (a, A(4)))], {4: a}, T.TRUE, 'an action for the key of a reference reaches what it refers to'),
           'set4': ([], {4: a}, T.TRUE, 'an action for the key of a reference reaches what it refers to')}
    for f in ('do', 'doL'):
        for k, (effs, ch, res, word) in act.items():
            fn = f'wit_{f}_{k}'
            for t in go(chk, mod, fn):
                chk.ob(effects(t) == effs, f'{fn}: {word}', t.show(CN), trace=t, names=CN)
                chk.ob(slots(t) == {**init, **ch}, f'{fn}: {word}, and nothing else changes', str({s: T.show(x, CN) for s, x in slots(t).items()}), trace=t, names=CN)
                chk.ob(outcome(t) == res, f'{fn}: the answer of the store acted upon is passed on', t.show(CN), trace=t, names=CN)
                if f == 'do':
                    chk.sample(f'{fn}: {t.show(CN)[:200]}')
    for fn, want in [(f'wit_compose_{n}', {0: A(0), 1: A(1), 2: A(0), 3: A(1)}) for n in ('cc', 'cl', 'lc', 'll', 'lr', 'rl')] + [(f'wit_wrap_{n}', {0: A(0), 1: A(0)}) for n in 'cl']:
        for t in go(chk, mod, fn):
            chk.ob(slots(t) == want, f'{fn}: composing copies what it is given and leaves that as it is', t.show(), trace=t)


SN = ['value', 'action', 'key1', 'key2', 'uid']


def c16(chk):
    """Actions on plain values, references, stores and network stores, and every kind of message (lvalue and rvalue) on the store of a context
    holding a plain value, a store with its own actions or a network store: what is called, what changes and what is reported, on every path."""
    mod = core.compile_ir('compose')
    v, a = A(0), A(1)
    one = {'assign': ([], {0: a, 1: a}, T.TRUE), 'assignl': ([], {0: a, 1: a}, T.TRUE), 'either': ([], {0: a}, T.TRUE), 'eitherm': ([], {0: a}, T.TRUE), 'assignm': ([], {0: a}, T.TRUE), 'fun': ([('evt_call', (1, 0), (a, v))], {0: a}, T.TRUE),
           'funL': ([('evt_call', (1, 0), (a, v))], {0: a}, T.TRUE), 'ref': ([], {0: a}, T.TRUE), 'reffun': ([('evt_call', (1, 0), (a, v))], {0: a}, T.TRUE),
           'refstore': ([('evt_cell_action', (), (v, a))], {0: v}, ('res', 'evt_cell_action', (), 0)),
           'net': ([('evt_net_message', (0,), (v, a))], {0: v}, ('res', 'evt_net_message', (0,), 0)),
           'refnet': ([('evt_net_message', (0,), (v, a))], {0: v}, ('res', 'evt_net_message', (0,), 0))}
    for k, (effs, st, res) in one.items():
        fn = 'wit_' + k
        for t in go(chk, mod, fn):
            chk.ob(effects(t) == effs, f'{fn}: an action is assigned if it can be, otherwise called with the value, or handed to the store, once', t.show(SN), trace=t, names=SN)
            chk.ob(slots(t) == st, f'{fn}: the value is as the action left it, the action as it was', t.show(SN), trace=t, names=SN)
            chk.ob(outcome(t) == res, f'{fn}: the answer of the store is passed on; a changed plain value is a change', t.show(SN), trace=t, names=SN)
    for k in ('where', 'refwhere', 'keywhere', 'keyrefwhere'):
        for t in go(chk, mod, 'wit_' + k):
            chk.ob(effects(t) == [] and slots(t) == {0: v, 5: C(1, 64)}, f'wit_{k}: the value itself is acted upon, not a copy', t.show(SN), trace=t, names=SN)
            chk.ob(outcome(t) == T.TRUE, f'wit_{k}: a changed value is a change', t.show(SN), trace=t, names=SN)
    for n in range(4):
        for t in go(chk, mod, f'wit_heard_{n}'):
            chk.ob(effects(t) == [('evt_call', (n, 0), (a, v))] and slots(t) == {0: v}, f'wit_heard_{n}: a store that only listens is offered the message once', t.show(SN), trace=t, names=SN)
            chk.ob(outcome(t) == (T.TRUE if n else T.FALSE), f'wit_heard_{n}: it changed exactly if it says so, however often', t.show(SN), trace=t, names=SN)
    for kind in ('plain', 'fun', 'cell', 'net'):
        for lv in ('', 'R'):
            for m in ('uc', 'ur', 'uu', 'ud', 'dc', 'dr', 'du', 'dd', 'dq'):
                fn = f'wit_{lv}{kind}_{m}'
                upd = m in ('du', 'dq')
                effs = {'plain': [], 'fun': [('evt_call', (1, 0), (a, v))], 'cell': [('evt_cell_action', (), (v, a))], 'net': [('evt_net_message', (0,), (v, a))]}[kind] if upd else []
                res = {'plain': T.TRUE, 'fun': T.TRUE, 'cell': ('res', 'evt_cell_action', (), 0), 'net': ('res', 'evt_net_message', (0,), 0)}[kind] if upd else T.FALSE
                st = {0: a if upd and kind in ('plain', 'fun') else v}
                for t in go(chk, mod, fn):
                    chk.ob(effects(t) == effs and slots(t) == st, f'{fn}: only a downstream update acts on the store of a context, once, with its payload', t.show(SN), trace=t, names=SN)
                    chk.ob(outcome(t) == res, f'{fn}: the answer is that of the store, and no change for any other message', t.show(SN), trace=t, names=SN)
                    if m == 'du' and not lv:
                        chk.sample(f'{fn}: {t.show(SN)}')
    for c in (0, 1):
        p = 'c' if c else ''
        for t in go(chk, mod, f'wit_{p}see_cell'):
            chk.ob(effects(t) == [('evt_cell_match', (c,), (v,)), ('evt_seen', (1, 0), (v,))] and slots(t) == {0: v}, f'wit_{p}see_cell: matching matches the store held', t.show(SN), trace=t)
        for t in go(chk, mod, f'wit_{p}see_net'):
            chk.ob(effects(t) == [('evt_seen', (21, c), (v,))] and slots(t) == {0: v}, f'wit_{p}see_net: matching reads the value held', t.show(SN), trace=t)
        for k, n in (('state', 20), ('net', 21)):
            for t in go(chk, mod, f'wit_{p}get_{k}'):
                chk.ob(effects(t) == [('evt_seen', (n, c), (v,))], f'wit_{p}get_{k}: getting yields the value held, const if the store is', t.show(SN), trace=t)


CHECKS = {'C12': (c12, 80), 'C16': (c16, 200)}
