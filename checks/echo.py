"""The echo producer."""
from sa import core, terms as T
from sa.terms import C

NAMES = ['context', 'a', 'b', 'u', 'p', 'q']
NO = C((1 << 64) - 1, 64)
A = [('arg', i) for i in range(6)]
CREATE, UPDATE, DELETE = 1, 4, 8
DOWN = 1
WIDTH = {2: 32, 3: 64, 4: 64, 7: 32}       # bits of the numbers of the keys


def number(t):
    """the key as {atom: coefficient, None: constant}; the width of the number counted"""
    w = 64
    while t[0] == 'cast' and t[1] in ('zext', 'sext'):
        w, t = t[2], t[4]
    return {k: v % (1 << w) for k, v in T.linear(t, w).items() if v % (1 << w)}, w


def c29(chk):
    """Every path through the echo producer is followed, for every kind of message and any key counter; what it sends downstream is compared, value by value, with what it was given."""
    mod = core.compile_ir('echo')

    def told(fn, n):
        ts = chk.explore(mod, fn).traces
        chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
        for t in ts:
            if t.kind != 'ret':
                continue
            es = t.evs('evt_told')
            chk.sample(f'{fn}: {t.show(NAMES)}'[:300])
            chk.ob(len(es) == n and len(t.events) == n, f'{fn}: each message is answered once', f'{len(es)} answers to {n} messages', trace=t, names=NAMES,
                   loc=es[0].loc if es else None)
            if len(es) == n:
                yield t, es

    def answer(fn, t, e, act, path, parent, key, uid, payload):
        chk.ob(e.targs[0] == DOWN, f'{fn}: what comes back is a downstream message', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.args[0] == A[0], f'{fn}: it is given to the context of the producer', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.targs[1] == act, f'{fn}: the action is the one sent', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.targs[2] == path and e.args[1] == parent and (key is None or e.args[2] == key), f'{fn}: the path is the one sent', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.args[3] == uid, f'{fn}: the uid is the one sent', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.args[4] == payload, f'{fn}: the payload is the one sent', e.show(NAMES), trace=t, loc=e.loc)
        chk.ob(e.args[5] == NO, f'{fn}: it says nothing about confirmation', e.show(NAMES), trace=t, loc=e.loc)

    _, a, b, u, p, q = A
    for name, act, path, key, uid, payload in (
            ('update_u', UPDATE, 3, b, u, p), ('update_n', UPDATE, 3, b, NO, p), ('delete_u', DELETE, 3, b, u, NO), ('delete_n', DELETE, 3, b, NO, NO),
            ('create_full', CREATE, 3, b, u, p), ('create_fulln', CREATE, 3, b, NO, p), ('create_fullq', CREATE, 3, b, u, p),
            ('create_uid', CREATE, 3, u, u, p), ('create_uidq', CREATE, 3, u, u, p), ('create_empty', CREATE, 5, C(0, 64), NO, p)):
        fn = 'wit_' + name
        for t, es in told(fn, 1):
            answer(fn, t, es[0], act, path, a, key, uid, payload)
    for name, path, sent in (
            ('same', 2, [(a, NO)] * 3), ('parents', 2, [(a, NO), (b, NO), (a, NO)]), ('uids', 2, [(a, NO), (a, u)] * 2), ('private', 2, [(a, NO)] * 4),
            ('payloads', 2, [(a, NO)] * 3), ('number', 4, [(a, NO)] * 3), ('wide', 3, [(a, NO)] * 2), ('int', 7, [(a, NO)] * 2), ('two', 2, [(a, NO)] * 3)):
        fn = 'wit_keys_' + name
        for t, es in told(fn, len(sent)):
            keys = []
            for e, (parent, uid) in zip(es, sent):
                answer(fn, t, e, CREATE, path, parent, None, uid, p)
                keys.append(number(e.args[2]))
            for e, (x, w) in zip(es, keys):
                chk.ob(w >= WIDTH[path], f'{fn}: the keys are counted in all the bits of the number of a key', f'{T.show(e.args[2])} counts in {w} bits', trace=t, names=NAMES, loc=e.loc)
            for i, (x, w) in enumerate(keys):
                for j, (y, w2) in enumerate(keys[:i]):
                    differ = {k: (x.get(k, 0) - y.get(k, 0)) % (1 << w) for k in set(x) | set(y)}
                    moved = differ.pop(None, 0)
                    chk.ob(w == w2 and moved and not any(differ.values()), f'{fn}: the keys given to messages {j + 1} and {i + 1} are always different',
                           f'{T.show(es[j].args[2])} and {T.show(es[i].args[2])}', trace=t, names=NAMES, loc=es[i].loc)


CHECKS = {'C29': (c29, 250)}
