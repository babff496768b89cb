"""Promises of paths; stores of ranges and visitors."""
from sa import core, terms as T
from sa.terms import C

ID, F, L, P = (('arg', i) for i in range(4))
NAMES = ['id', 'first', 'last', 'picked']
RN = ['x', 'y', 'a', 'b']
FIRST, LAST, OTHER, PERSON, ACCOUNT, GUEST, NOTHING, UNRESOLVED, NUMBER, ANY = range(1, 11)
O = C(0, 64)
# what there is instead of an account, of a person, of something picked
WAIT = (2, UNRESOLVED, O)
STATES = ('nothing yet', 'a guest', 'an account of nobody', 'an account of a person who picked nothing', 'a person who picked the last', 'a person who picked the first', 'a person who picked another')


def table():
    def account(f):         # rows for states 0..6 given what happens with an account
        return [WAIT, (2, GUEST, ID)] + [f(n) for n in range(2, 7)]

    def person(f):
        return account(lambda n: (2, NOTHING, O) if n == 2 else f(n))

    picked = {3: (UNRESOLVED, O), 4: (LAST, P), 5: (FIRST, P), 6: (OTHER, P)}
    return {
        'account': account(lambda n: (1, ACCOUNT, ID)),
        'guest': [WAIT, (1, GUEST, ID)] + [(2, ACCOUNT, ID)] * 5,
        'waiting': [(1, UNRESOLVED, O), (2, GUEST, ID)] + [(2, ACCOUNT, ID)] * 5,
        'id': account(lambda n: (1, NUMBER, ID)),
        'person': person(lambda n: (1, PERSON, F)),
        'nobody': account(lambda n: (1, NOTHING, O) if n == 2 else (2, PERSON, F)),
        'last': person(lambda n: (1, LAST, L)),
        'two': person(lambda n: (1, FIRST, F)),
        'other': person(lambda n: (1 if n == 6 else 2,) + picked[n]),
        'plast': person(lambda n: (1 if n == 4 else 2,) + picked[n]),
        'any': person(lambda n: (1,) + picked[n]),
        'far': person(lambda n: (1, FIRST, F)),
    }


def one(chk, mod, fn, names):
    ts = chk.explore(mod, fn).traces
    chk.ob(len(ts) == 1 and ts[0].kind == 'ret', f'{fn}: completes', str([t.kind for t in ts]))
    if ts:
        chk.sample(f'{fn}: {ts[0].show(names)}'[:300])
    return ts[0] if len(ts) == 1 and ts[0].kind == 'ret' else None


def norm(t):
    return [(e.name[6:],) + tuple(a[1] if a[0] == 'c' else a for a in e.args) for e in t.events]


def c38(chk):
    """For thirteen paths into a store of variants, entities, optionals and tuples, and every state of that store: what the promise of the path is settled with and how often."""
    mod = core.compile_ir('path')
    for name, rows in table().items():
        for n, want in enumerate(rows):
            fn = f'wit_path_{name}_{n}'
            t = one(chk, mod, fn, NAMES)
            if not t:
                continue
            es = t.evs('evt_r_told')
            chk.ob(len(es) == 1 and len(t.events) == 1, f'{fn}: the promise is settled exactly once', t.show(NAMES), trace=t, names=NAMES)
            if len(es) != 1:
                continue
            e = es[0]
            how, kind = e.args[0][1], e.args[1][1]
            chk.ob(how == want[0], f'{fn}: with {STATES[n]} it is ' + ('resolved' if want[0] == 1 else 'rejected'), t.show(NAMES), trace=t, names=NAMES, loc=e.loc)
            chk.ob(kind == want[1] and e.args[2] == want[2], f'{fn}: it is given what is there', t.show(NAMES), trace=t, names=NAMES, loc=e.loc)
    for name, at in (('get', 24), ('match', 24), ('two', 24), ('both', 24), ('last', 24), ('none', 0)):
        fn = f'wit_itself_{name}'
        t = one(chk, mod, fn, ['room'])
        if t:
            got = [T.split_ptr(e.args[0]) for e in t.evs('evt_r_at')]
            chk.ob(got == [(('arg', 0), at, ())], f'{fn}: it is given the thing itself, not a copy', str(got), trace=t, names=['room'])
    for n in range(7):
        fn = f'wit_path_all_{n}'
        t = one(chk, mod, fn, NAMES)
        if t:
            es = t.evs('evt_r_told')
            chk.ob(len(t.events) == 1 and [tuple(e.args[:2]) for e in es] == [(C(1, 32), C(ANY, 32))],
                   f'{fn}: the path of nothing is resolved with the whole store', t.show(NAMES), trace=t, names=NAMES)
    for want in (1, 2, 3):
        for has in (1, 2, 3):
            t = one(chk, mod, f'wit_exact_{want}{has}', NAMES)
            if t:
                chk.ob(norm(t) == [('told', 1 if want == has else 2, has, ID)], f'wit_exact_{want}{has}: a step for a type takes that type itself, not one derived from it nor one that converts to it', t.show(NAMES), trace=t, names=NAMES)
    t = one(chk, mod, 'wit_root', NAMES)
    if t:
        chk.ob(norm(t) == [('told', 1, NUMBER, ID)], 'wit_root: a member of the root is read', t.show(NAMES), trace=t, names=NAMES)


X, Y, Z, B = ID, F, L, P
RANGES = {
    'each_0': ([], 'a range of nothing has no elements'),
    'each_1': ([('cell_match', X, 0), ('told', 3, LAST, X)], 'every element is read once, in order'),
    'each_3': ([i for v in (X, Y, Z) for i in (('cell_match', v, 0), ('told', 3, LAST, v))], 'every element is read once, in order'),
    'keep_3': ([i for v in (X, Y, Z) for i in (('cell_match', v, 0), ('told', 3, LAST, v))], 'a constant range has the same elements'),
    'const_3': ([i for v in (X, Y, Z) for i in (('cell_match', v, 1), ('told', 3, LAST, v))], 'the elements of a constant container are constant'),
    'boxes': ([('told', 3, LAST, X), ('told', 3, UNRESOLVED, O), ('told', 3, FIRST, Y)], 'an element that is a variant is seen through'),
    'other': ([('base_match', B, 1), ('told', 3, FIRST, B)] * 2, 'any other key is read from the base store, key intact'),
    'other_ref': ([i for v in (X, Y) for i in [('base_match', B, 1), ('told', 3, FIRST, B)] * 2 + [('cell_match', v, 0), ('told', 3, LAST, v)]], 'constant iterators read the same'),
    'derived': ([('base_match', B, 2), ('told', 3, FIRST, B)] * 2, 'a key derived from the key of the elements is another key'),
    'cv_key': ([('cell_match', X, 0), ('told', 3, LAST, X)] * 2, 'the key of the elements reads them, however it is held'),
    'do_item': ([('cell_action', Y, Z), ('same', 1, 1), ('seen', X), ('seen', Z), ('seen', B)], 'an action for the element reaches that element only'),
    'do_base': ([('base_action', B, 0, Z), ('same', 1, 1), ('seen', X), ('seen', Y), ('seen', C(7, 64))], 'a plain action reaches the base store only'),
    'do_lvalue': ([('cell_action', X, Z), ('same', 1, 1), ('seen', Z), ('seen', Y), ('seen', B)], 'an action for the element reaches that element only'),
    'do_box': ([('told', 3, LAST, X), ('told', 3, LAST, Z)], 'an action for the element changes what is in the container'),
    'named': ([i for v, h in ((X, B), (Y, C(7, 64))) for i in (('seen', B), ('base_match', h, 2), ('told', 3, FIRST, h), ('base_action', h, 0, Z), ('cell_action', v, Z))],
              'actions and keys handed over by name stay as they are'),
    'again': ([('base_match', B, 1), ('told', 3, FIRST, B), ('cell_match', X, 0), ('told', 3, LAST, X)] * 2 + [('seen', B)], 'a range can be gone through again'),
    'all': ([i for v, h in ((X, B), (Y, C(7, 64))) for i in (('cell_action', v, Z), ('cell_match', Z, 0), ('told', 3, LAST, Z), ('cell_match', Z, 0), ('told', 3, LAST, Z),
                                                             ('base_action', h, 0, Z), ('base_match', C(7, 64), 1), ('told', 3, FIRST, C(7, 64)), ('cell_action', Z, B))]
            + [('seen', B), ('seen', B), ('seen', C(7, 64))], 'whatever is asked of an element, the next one follows'),
    'nested': ([i for v in (X, Y) for i in (('cell_match', v, 0), ('told', 3, LAST, v), ('cell_match', Z, 0), ('told', 3, LAST, Z), ('base_match', B, 1), ('told', 3, FIRST, B))],
               'ranges nest: each key reads its own element, any other key the store below both'),
    'iter': ([('same', i + 1, v) for i, v in enumerate((0, 1, 1, 0, 1, 1, 0, 1))], 'iterators move by one and are equal exactly at the same element'),
    'exact': ([('seen', 0), ('seen', 1)], 'a type derived from the one wanted is not the one wanted'),
}
VALUES = {0: (8, O), 1: (1, X), 2: (2, X), 3: (3, X)}


def c39(chk):
    """Every witness is followed: what each element and the base store are asked, in order, with which value, and what they hold afterwards; which visitor is called with what."""
    mod = core.compile_ir('path')
    plain = lambda es: [tuple(a[1] if isinstance(a, tuple) and a[0] == 'c' else a for a in e) for e in es]  # noqa: E731
    for name, (want, word) in RANGES.items():
        fn = f'wit_{name}'
        t = one(chk, mod, fn, RN)
        if t:
            chk.ob(len(t.events) == len(want), f'{fn}: {word}', t.show(RN), trace=t, names=RN)
            for i, (e, w) in enumerate(zip(norm(t), plain(want))):
                chk.ob(e == w, f'{fn}: {word}', f'step {i + 1}: {t.show(RN)}', trace=t, names=RN, loc=t.events[i].loc)
    for n, (kind, v) in VALUES.items():
        for name, tgt, how in (('when', 1, 11), ('cwhen', 2, 22), ('kwhen', kind, 30 if kind == 8 else 31)):
            fn = f'wit_{name}_{n}'
            t = one(chk, mod, fn, RN)
            if t:
                want = plain([('told', how, kind, v)]) if kind == tgt else []
                chk.ob(norm(t) == want, f'{fn}: match_when calls its function for its type alone, with the value itself', t.show(RN), trace=t, names=RN)
        fn = f'wit_mapped_{n}'
        t = one(chk, mod, fn, RN)
        if t:
            how = {0: 90, 1: 11, 2: 91, 3: 31}[n]
            chk.ob(norm(t) == plain([('told', how, kind, v)]), f'{fn}: mapped_overload calls the function of the type, else the other one, with the value itself', t.show(RN), trace=t, names=RN)


CHECKS = {'C38': (c38, 250), 'C39': (c39, 80)}
