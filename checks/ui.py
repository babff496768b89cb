"""User interface specs: what is read, which branch is taken, what the handler is given."""
from sa import core, terms as T
from sa.terms import C

V, W, MISSING, R, NOOP = 1, 2, 3, 4, 19
def S(n): return 10 + n
def k(n): return ('const', 20 + n)
NONE = ('const', NOOP)
def get(*ks): return ('path', [(None, list(ks))])
def path(*nodes): return ('path', list(nodes))       # nodes: (type or None, keys), outermost first
def only(t, *ks): return ('path', [(t, list(ks))])
def key_at(p): return ('key', p)
def match(p, *bs): return ('type', p, list(bs))       # branches: (type or None, [params])
def cond(p, *bs): return ('pred', p, list(bs))        # branches: (predicate, True or False, [params])
def fn(i, *ps): return ('fn', i, list(ps))


class Fork(Exception):
    def __init__(self, atom, n):
        self.atom, self.n = atom, n


def atom(name, ty, *args):
    return ('pure', name, ty, tuple(args))


def c32(x):
    return C(x, 32)


class Spec:
    """what a spec says, in a world: an assignment of answers to the questions asked of stores and values so far"""
    def __init__(self, world):
        self.world = world

    def know(self, a, n):
        if a not in self.world:
            raise Fork(a, n)
        return self.world[a][1]

    def ask(self, store, key):
        n, kh = store[0] - 10, C(0, 64) if key[0] >= 19 else key[1]
        if key[0] == MISSING and kh is None:
            raise core.AnalysisError('key')
        at = (c32(n), c32(key[0]), store[1], kh)
        j = self.know(atom('ask', 'i32', *at), 3)
        kind = (MISSING, V, S(n + 1) if n < 3 else W)[j]
        return kind, atom('child', 'i64', *at)

    def read(self, store, nodes):
        """follow the parts of a path; None when a part has another type than the path wants"""
        for typ, keys in nodes:
            ks = self.all(keys, store)
            if ks is None:
                return None
            for x in ks:
                if not 10 < store[0] < 19:
                    break
                store = self.ask(store, x)
            if typ is not None and store[0] != typ:
                return None
        return store

    def values(self, p, store):
        if p[0] == 'const':
            return [(p[1], C(0, 64))]
        if p[0] == 'path':
            v = self.read(store, p[1])
            return None if v is None else [v]
        if p[0] == 'key':
            return self.values(p[1], store)
        if p[0] == 'fn':
            xs = self.all(p[2], store)
            if xs is None:
                return None
            r = C(len(xs), 64)
            for i, x in enumerate(xs):
                r = atom('mix', 'i64', c32(p[1]), c32(i), c32(x[0]), r, x[1])
            return [(R, r)]
        j = self.branch(p, store)
        return None if j is None else self.all(p[2][j][-1], store)

    def branch(self, p, store):
        v = self.read(store, p[1][1])
        if v is None:
            return None
        for j, b in enumerate(p[2]):
            if p[0] == 'type':
                if b[0] is None or b[0] == v[0]:
                    return j
            elif b[0] is True or b[0] is not False and self.know(atom('holds', 'i32', c32(b[0]), c32(v[0]), v[1]), 2):
                return j
        raise core.AnalysisError('no branch')

    def all(self, ps, store):
        """the values of parameters one after the other; None when one of them has another type than a path wants"""
        out = []
        for p in ps:
            xs = self.values(p, store)
            if xs is None:
                return None
            out += xs
        return out


def deep(t, w):
    """like T.evaluate, but also within what stores and functions are asked"""
    if t in w:
        return w[t]
    if t[0] == 'pure':
        r = t[:3] + (tuple(deep(x, w) for x in t[3]),)
        return w.get(r, r)
    if t[0] == 'icmp':
        return T.icmp(t[1], deep(t[2], w), deep(t[3], w))
    if t[0] == 'sel':
        c = deep(t[1], w)
        return deep(t[2], w) if c == T.TRUE else deep(t[3], w) if c == T.FALSE else ('sel', c, deep(t[2], w), deep(t[3], w))
    if t[0] == 'op':
        return T.binop(t[1], t[2], deep(t[3], w), deep(t[4], w))
    if t[0] == 'cast':
        return T.cast(t[1], t[2], t[3], deep(t[4], w))
    return t


def allows(facts, w):
    return all(deep(f, w) != (T.FALSE if v else T.TRUE) for f, v in facts.items())


def worlds(t, want):
    """want(spec) in every world the facts of the path allow"""
    todo = [{}]
    while todo:
        w = todo.pop()
        try:
            yield w, want(Spec(w))
        except Fork as f:
            todo += [n for n in ({**w, f.atom: c32(j)} for j in range(f.n)) if allows(t.facts, n)]


def word(x):
    return f'constant {x[0] - 20}' if x[0] >= 20 else 'nothing to show' if x[0] == NOOP else f'{ {V: "V", W: "W", MISSING: "missing", R: "result"}.get(x[0]) or "store %d" % (x[0] - 10)} {T.show(x[1], ["h"])}'


def words(xs):
    return 'not called' if xs is None else '(' + ', '.join(map(word, xs)) + ')'


def describe(w):
    return ', '.join(f'{T.show(a, ["h"])} = {v[1]}' for a, v in w.items())[:300]


STORE = (S(1), ('arg', 0))


def run(chk, mod, fn, want, got, rule):
    ts = chk.explore(mod, fn).traces
    n = 0
    for t in ts:
        if t.kind != 'ret':
            chk.ob(False, f'{fn}: completes', t.kind, trace=t)
            continue
        for w, x in worlds(t, want):
            n += 1
            y, loc = got(t, w)
            chk.ob(same(y, x), f'{fn}: {rule}', f'the spec says {words(x) if isinstance(x, (list, type(None))) else x}, but it is {words(y) if isinstance(y, (list, type(None))) else y} when {describe(w)}', trace=t, loc=loc,
                   **({'key': f'{fn}: the handler is not called'} if y is None and isinstance(x, list) else {}))
    chk.ob(n > 0, f'{fn}: is explored', '')
    if ts:
        chk.sample(f'{fn}: {n} answers of the store over {len(ts)} paths, e.g. {ts[0].show(["h"])}'[:300])


def same(y, x):
    if not isinstance(x, list) or not isinstance(y, list):
        return y == x
    return len(x) == len(y) and all(a[0] == b[0] and (a[0] >= 19 or a[1] == b[1]) for a, b in zip(y, x))


def handled(t, w):
    """what the handler is given"""
    ps, out, loc = [], None, None
    for e in t.events:
        loc = e.loc
        if e.name == 'evt_r_param':
            ps.append((e.targs[0], e.targs[1], deep(e.args[0], w)))
        elif e.name == 'evt_handled':
            if out is not None:
                return 'called again', e.loc
            if [p[0] for p in ps] != list(range(e.targs[0])):
                return 'called with other parameters', e.loc
            out, ps = [(p[1], p[2]) for p in ps], []
    return out, loc


def flag(name):
    def f(t, w):
        es = t.evs(name)
        return (deep(es[0].args[0], w)[1] if len(es) == 1 else f'{len(es)} times'), es[0].loc if es else None
    return f


MATCH = match(get(k(0)), (V, [k(7)]), (MISSING, [k(8)]), (S(2), [k(9)]))
SPECS = {
    'const': [k(4)], 'none': [], 'one': [get(k(0))], 'three': [k(5), get(k(0)), k(6)], 'deep': [get(k(0), k(1))], 'two': [get(k(0)), get(k(1))],
    'grow': [get(k(0), k(1)), get(k(2))], 'cat': [k(5), get(k(0)), k(6)], 'catcat': [k(4), get(k(0)), k(5), k(6)], 'same': [get(k(0)), get(k(0))],
    'keyat': [get(key_at(get(k(0))))], 'keyat2': [get(k(1), key_at(get(k(0))))], 'keyatc': [get(key_at(get(k(0))), k(1))],
    'onlyv': [only(V, k(0))], 'onlyv2': [only(V, k(0), k(1))], 'onlys': [only(S(2), k(0))], 'onlym': [k(5), only(MISSING, k(0)), get(k(1))],
    'below': [path((S(2), [k(0)]), (None, [k(1)]))], 'below2': [path((S(2), [k(0)]), (None, [k(1), k(2)]))],
    'br': [MATCH],
    'brget': [k(4), match(get(k(0)), (V, [only(V, k(0))]), (None, [k(8)])), k(5)],
    'brdef': [match(get(k(0)), (V, [k(7)]), (None, [NONE])), get(k(1))],
    'brfirst': [match(get(k(0)), (None, [k(8)]), (V, [k(7)]))],
    'brmany': [match(get(k(0)), (MISSING, [k(7), get(k(1))]), (None, [get(k(2)), k(8), k(9)])), k(4)],
    'brdeep': [match(get(k(0), k(1)), (V, [only(V, k(0), k(1))]), (MISSING, [get(k(2))]), (None, [k(8)]))],
    'brbr': [match(get(k(0)), (V, [match(get(k(1)), (MISSING, [k(7)]), (None, [k(8)]))]), (None, [k(9)]))],
    'brdefget': [match(get(k(0)), (V, [k(7)]), (None, [get(k(0))]))],
    'cond': [cond(get(k(0)), (0, [k(7)]), (1, [get(k(0))]), (True, [k(8)]))],
    'condc': [cond(get(k(0)), (False, [k(7)]), (0, [k(8)]), (True, [k(9)]), (1, [k(4)])), get(k(1))],
    'condbr': [cond(get(k(0)), (0, [match(get(k(1)), (V, [only(V, k(1))]), (None, [k(7)]))]), (True, [get(k(2))]))],
    'iter': [cond(get(k(0), k(1)), (0, [k(5), get(k(0), k(1))]), (True, [get(k(2)), k(6)])), k(4)],
    'fn': [fn(0, get(k(0)))], 'fn2': [k(4), fn(0, get(k(0)), k(5), get(k(1))), k(6)], 'fnfn': [fn(0, fn(1, get(k(0))), get(k(1)))],
    'fncat': [fn(0, k(5), get(k(0)), k(6))], 'fnbr': [fn(0, match(get(k(0)), (V, [k(7)]), (None, [get(k(1))])))],
    'brfn': [match(get(k(0)), (V, [fn(0, get(k(1)))]), (None, [fn(1, k(5))])), k(6)],
    'twofn': [fn(0, get(k(0))), fn(1, get(k(1)))], 'fnonly': [fn(0, only(V, k(0))), k(6)],
}
PATHS = {
    'one': [(None, [k(0)])], 'three': [(None, [k(0), k(1), k(2)])], 'grow': [(None, [k(0), k(1), k(2)])], 'none': [(None, [])],
    'keyat': [(None, [k(0), key_at(get(k(1), k(2)))])], 'onlyv': [(V, [k(0)])], 'onlyw': [(W, [k(0), k(1), k(2)])], 'onlyone': [(S(2), [k(0)])],
    'below': [(S(2), [k(0)]), (None, [k(1), k(2)])], 'belowkey': [(S(2), [k(0)]), (None, [key_at(get(k(1)))])], 'belowonly': [(V, [k(0)])],
    'only3': [(S(2), [k(0)]), (None, [k(1)]), (V, [])], 'only4': [(S(2), [k(0)]), (S(3), [k(1)]), (None, [k(2)]), (V, [])],
    'only5': [(None, [k(0)]), (S(2), []), (S(3), [k(1)]), (None, [k(2)]), (W, [])],
}
IS = {'v': (V, [(None, [k(0)])]), 'deep': (MISSING, [(None, [k(0), k(1)])]), 'store': (S(3), [(None, [k(0), k(1)])]), 'below': (V, [(S(2), [k(0)]), (None, [k(1)])])}
BRANCHES = {
    'type': match(get(k(0)), (V, []), (MISSING, []), (None, [])), 'deep': match(get(k(0), k(1)), (MISSING, []), (S(3), []), (None, [])),
    'first': match(get(k(0)), (V, []), (None, []), (MISSING, [])), 'cond': cond(get(k(0)), (0, []), (1, []), (True, [])), 'condc': cond(get(k(0)), (False, []), (1, []), (True, [])),
}
a, b, c = (V, ('arg', 0)), (W, ('arg', 1)), (R, ('arg', 2))
def q(n): return (20 + n, None)
VIEWS = {
    'empty': [], 'c': [q(4)], 'r': [a], 'cr': [q(4), a], 'rc': [a, q(4)], 'rcrcr': [a, q(4), b, q(5), c], 'rrr': [c, b, a], 'rrrc': [c, b, a, q(4), q(5)],
    'e_e': [], 'e_r': [a], 'r_e': [a], 'c_c': [q(4), q(5)], 'rc_rc': [a, q(4), b, q(5)], 'cr_crr': [q(4), a, q(5), b, c], 'rr_cr': [b, c, q(5), a],
    'rr_rr': [b, c, a, b], 'catapp': [b, q(4), c, a, q(5), b],
}


def c32_(chk):
    """Lists of parameters with paths, keys read from the store, branches by type and by predicate, functions and nestings of them, against opaque stores that answer every question in each of three ways;
    the values and the branch that follow from the spec are computed separately and compared in every world the path allows."""
    mod = core.compile_ir('ui')
    for n, ps in SPECS.items():
        for by in ('ui', 'uiv'):
            run(chk, mod, f'wit_{by}_{n}', lambda s, ps=ps: s.all(ps, STORE), handled, 'the handler is given each parameter in its place, once: constants as they are, paths as what the store has there, '
                'branches as the first that applies, functions as their result; nothing when a path finds another type than it wants')
    for n, nodes in PATHS.items():
        def want(s, nodes=nodes):
            v = s.read(STORE, nodes)
            return None if v is None else [v]
        run(chk, mod, f'wit_path_{n}', want, handled, 'the handler is given what the store has at the path, once, unless it is of another type than the path wants')
    for n, (typ, nodes) in IS.items():
        def want(s, typ=typ, nodes=nodes):
            v = s.read(STORE, nodes)
            return int(v is not None and v[0] == typ)
        run(chk, mod, f'wit_is_{n}', want, flag('evt_flag'), 'true exactly when the value at the path is of that type')
    for n, p in BRANCHES.items():
        for f in ('index', 'branch'):
            run(chk, mod, f'wit_{f}_{n}', lambda s, p=p: s.branch(p, STORE), flag('evt_index'), 'the first branch that applies to the value at the path is taken')
        run(chk, mod, f'wit_branch_{n}', lambda s: 1, flag('evt_flag'), 'the branch is given with its own spec')
        for t in chk.explore(mod, f'wit_bindex_{n}').traces:
            for i in range(3):
                if T.allows(t.facts, {('arg', 0): C(i, 64)}):
                    es = t.evs('evt_index')
                    chk.ob(t.kind == 'ret' and len(es) == 1 and T.evaluate(es[0].args[0], {('arg', 0): C(i, 64)})[:2] == ('c', i) and all(T.evaluate(e.args[0], {('arg', 0): C(i, 64)})[1] == 1 for e in t.evs('evt_flag')),
                           f'wit_bindex_{n}: a branch taken by its index is that branch', f'index {i}: {t.show()}', trace=t)
    for t in chk.explore(mod, 'wit_equal').traces:
        for v in T.points(t.facts, 64):
            w = {('arg', 0): C(v, 64)}
            if T.allows(t.facts, w):
                e = t.evs('evt_flag')
                chk.ob(len(e) == 1 and T.evaluate(e[0].args[0], w)[1] == (v == 5), 'wit_equal: equal(x) holds of exactly x', f'{v}: {t.show()}', trace=t)
    for n, ps in VIEWS.items():
        run(chk, mod, f'wit_view_{n}', lambda s, ps=ps: ps, handled, 'a list of references and constants has every entry in its place, referring to what was put there')


CHECKS = {'C32': (c32_, 250)}
