"""Definitions of contexts: what is generated from them, whatever their shape and however they are written."""
import hashlib, os, random
from sa import core, terms as T
from sa.terms import C

ACTS = ['Create', 'Read', 'Update', 'Delete']
ALL = (0, 1, 2, 3)


class AP:
    def __init__(self, key, acts=None, store=None, entity=None, listens=(), kids=()):
        self.key, self.acts, self.store, self.entity, self.listens, self.kids = key, acts, store, entity, list(listens), list(kids)


class Prod:
    def __init__(self, no, *aps, name=None):
        self.no, self.aps, self.name = no, aps, name


class Cons:
    def __init__(self, no, kind, name=None):       # kind 0: messages, 1: messages and changes, 2: changes
        self.no, self.kind, self.name = no, kind, name


KINDS = ['consumer_tag', 'both_tag', 'state_consumer_tag']


class Def:
    def __init__(self, prods, cons=()):
        self.prods, self.cons = prods, list(cons)
        self.paths = {}                      # path -> (producer, access point)
        for p in prods:
            for a in p.aps:
                self.collect((), a, p)
        self.listeners = {}
        for path, (_, a) in self.paths.items():
            for l in a.listens:
                self.listeners.setdefault(l, []).append(path)

    def collect(self, above, a, p):
        path = above + (a.key,)
        if a.acts or a.store is not None:
            if path in self.paths:
                raise core.AnalysisError('the same path twice')
            self.paths[path] = (p, a)
        for x in a.kids:
            self.collect(path, x, p)

    # the definition written down; form: which of the equivalent ways
    def text(self, form):
        one_p, one_c = len(self.prods) == 1 and form % 2 == 0, len(self.cons) == 1 and form % 2 == 1
        ps = [self.producer(p, form) for p in self.prods]
        cs = [f'Consumer({turn([f"Type<{KINDS[c.kind]}<{c.no}>>"] + name(c), form)})' for c in self.cons]
        parts = [ps[0] if one_p else f'Producers({", ".join(ps)})']
        if cs:
            parts.append(cs[0] if one_c else f'Consumers({", ".join(cs)})')
        elif form % 3 == 2:
            parts.append('Consumers()')
        return f'Context({turn(parts, form)})'

    def producer(self, p, form):
        return f'Producer({turn([f"Type<producer_tag<{p.no}>>"] + name(p) + self.aps(p.aps, form), form)})'

    def aps(self, aps, form):
        xs = [self.ap(a, form) for a in aps]
        return [] if not xs else [xs[0]] if len(xs) == 1 and form % 2 == 0 else [f'AccessPoints({", ".join(xs)})']

    def ap(self, a, form):
        parts = [f'PathKey<key<{a.key}>>']
        if a.entity is not None:
            parts.append(f'Entity<ent<{a.entity}>>')
        if a.store is not None:
            parts.append(f'Store<ostore_tag<{a.store}>>')
        if a.acts is not None:
            parts.append('Actions(' + ', '.join(ACTS[i] + '()' for i in a.acts) + ')')
        if a.listens:
            parts.append('ListenPaths(' + ', '.join('Path<' + ', '.join(f'key<{k}>' for k in l) + '>' for l in a.listens) + ')')
        if form % 3 == 1:
            parts.append(f'Name(hana::type_c<key<{a.key}>>)')
        return f'AccessPoint({turn(parts + self.aps(a.kids, form), form)})'

    def witness(self, d, form):
        out = [f'WITDEF({d}, {self.text(form)})']
        for path, (_, a) in self.paths.items():
            n, keys, types = pid(path), ', '.join(f'wit::key<{k}>{{p}}' for k in path), [f'wit::key<{k}>' for k in path]
            out.append(f'WITPATH({d}, {n}, {keys})')
            if a.store is not None:
                out.append(f'WITSTORE({d}, {n}, {keys})')
            if len(path) > 1:
                out.append(f'WITKEYLESS({d}, {n}, {", ".join(types[-1:] + types[:-1])})')
        args = [(x, f'a{i}') for i, x in enumerate(self.prods + self.cons)]
        pair = ', '.join(f'nbdl::actor({nm(x)}, arg_t{{{v}}})' for x, v in reversed(args))
        params = ', '.join('u64 ' + v for _, v in args)
        out.append(f'WIT void* wit_make_{d}({params}) {{ return nbdl::make_context<def_{d}>({pair}).release(); }}')
        if any(a.acts for _, a in self.paths.values()):
            out.append(f'WITAPI({d}) ' + ' '.join(f'WITAPI1({pid(p)})' for p in self.paths) + ' }')
        return out


def nm(x):
    kind = 'producer_tag' if isinstance(x, Prod) else KINDS[x.kind]
    return f'"{x.name}"_s' if x.name else f'hana::type_c<{kind}<{x.no}>>'


def name(x):
    return [f'Name("{x.name}"_s)'] if x.name else []


def turn(parts, form):
    k = form % max(1, len(parts))
    return ', '.join(parts[k:] + parts[:k])


def pid(path):
    r = 0
    for k in path:
        r = r * 10 + k
    return r


def shapes():
    """definitions of every kind of shape"""
    one = lambda **k: AP(1, ALL, 0, **k)
    yield Def([Prod(1, one())])
    yield Def([Prod(1, one(), name='p')], [Cons(5, 1)])
    yield Def([Prod(1, one(entity=3)), Prod(2, AP(2, ALL, 0), name='q')], [Cons(5, 0, 'a'), Cons(6, 1), Cons(7, 2, 'c')])
    # access points in access points, each with or without a store and actions of its own
    yield Def([Prod(1, AP(1, ALL, 0, 1, kids=[AP(2, (2,), 0, 2, kids=[AP(3, ALL, 2, 3), AP(4, (0, 1), 1, 4)])]))], [Cons(5, 1)])
    yield Def([Prod(1, AP(1, kids=[AP(2, ALL, 0), AP(3, kids=[AP(4, (3,), 2)])]), AP(5, (0,), None), AP(6, None, 0, kids=[AP(7, (2, 3), None)]))], [Cons(5, 0), Cons(6, 1)])
    yield Def([Prod(1, AP(1, (), 0, 9), AP(2, (), None, kids=[AP(1, (1,), 0, 8)]))], [Cons(5, 1)])
    # the same keys in different places and for different producers
    yield Def([Prod(1, AP(1, ALL, 0, kids=[AP(2, ALL, 0)]), AP(2, (0, 2), 0)), Prod(2, AP(2, None, None, kids=[AP(1, ALL, 0, kids=[AP(1, (1, 2), 2)])]), AP(3, (2,), 0))], [Cons(5, 1), Cons(6, 1)])
    # stores that listen: to another producer's path, to several, several to one, to a path no one has, to their own
    yield Def([Prod(1, AP(1, ALL, 0, listens=[(2,), (2, 3)]), AP(2, ALL, 0, kids=[AP(3, (2, 3), 1)])), Prod(2, AP(4, ALL, 2, listens=[(1,), (2,)]), AP(5, (2,), 0, listens=[(2,)]))], [Cons(5, 2), Cons(6, 0)])
    yield Def([Prod(1, AP(1, ALL, 0, listens=[(1,)]), AP(2, ALL, 0, listens=[(9, 9), (1,)]))], [Cons(5, 2)])
    yield Def([Prod(1, AP(1, (2,), None), AP(2, None, None, kids=[AP(3, ALL, 0, listens=[(1,), (2, 3)], kids=[AP(4, (2, 3), 0, listens=[(2, 3)])])]))], [Cons(5, 2), Cons(6, 1)])
    # producers without access points, and many of them
    yield Def([Prod(1), Prod(2, one())], [Cons(5, 0)])
    yield Def([Prod(i, AP(i, ALL, i % 3), name=f'p{i}' if i % 2 else None) for i in (3, 1, 2, 4)], [Cons(9, 2, 'z'), Cons(8, 0), Cons(7, 1, 'y'), Cons(6, 0)])
    rnd = random.Random(20261119)
    for _ in range(8):
        yield some(rnd)


def some(rnd):
    n, left = rnd.randint(1, 3), [rnd.randint(6, 9)]
    keys = list(range(1, 8))

    def ap(key, depth):
        left[0] -= 1
        kids = [ap(k, depth + 1) for k in rnd.sample(keys, rnd.randint(0, 2))] if depth < 2 and left[0] > 0 else []
        bare = kids and rnd.random() < .4
        return AP(key, None if bare else tuple(i for i in ALL if rnd.random() < .7), None if bare else rnd.choice([None, 0, 0, 1, 2]), rnd.choice([None, key]), kids=kids)
    tops = rnd.sample(keys, min(len(keys), n + rnd.randint(0, 2)))
    ps = [[] for _ in range(n)]
    for i, k in enumerate(tops):
        ps[i % n].append(ap(k, 0))
    d = Def([Prod(i + 1, *aps, name=rnd.choice([None, f'p{i}'])) for i, aps in enumerate(ps)], [Cons(5 + i, rnd.randint(0, 2), rnd.choice([None, f'c{i}'])) for i in range(rnd.randint(0, 3))])
    paths = list(d.paths)
    for path, (_, a) in d.paths.items():
        if a.store is not None:
            a.listens = [l for l in paths if l != path and rnd.random() < .3]
    return Def(d.prods, d.cons)


def module(lines):
    text = '\n'.join(lines) + '\n'
    path = os.path.join(core.cache_dir(), f'defs-{hashlib.sha256(text.encode()).hexdigest()[:12]}.hpp')
    if not os.path.exists(path):
        tmp = f'{path}.{os.getpid()}.tmp'
        open(tmp, 'w').write(text)
        os.rename(tmp, path)
    return core.compile_ir('defs', defines=(f'DEFS_FILE="{path}"',))


class Run:
    def __init__(self, chk, mod, d, form, de):
        self.chk, self.mod, self.d, self.de = chk, mod, d, de
        self.sc = [c.no for c in de.cons if c.kind]
        self.mc = [c.no for c in de.cons if c.kind < 2]
        self.about = de.text(form)

    def paths(self, fn):
        ts = self.chk.explore(self.mod, fn).traces
        self.chk.ob(bool(ts), f'{fn}: is explored', '')
        for t in ts:
            if self.chk.ob(t.kind == 'ret', f'{fn}: completes', t.kind, trace=t):
                yield t

    def ob(self, ok, what, t, detail=''):
        self.chk.ob(ok, what, f'{detail or t.show()}  for {self.about}', trace=t, loc=t.events[0].loc if t.events else None)

    def one(self, fn, t, name, want, what, key=lambda e: e.targs):
        got = sorted(key(e) for e in t.evs(name))
        self.ob(got == sorted(want), f'{fn}: {what}', t, f'{name}: {got} instead of {sorted(want)}')

    def run(self):
        for path, (p, a) in self.de.paths.items():
            for w, act in (('ucreate', 0), ('uupdate', 2), ('udelete', 3), ('dcreate', 0), ('dread', 1), ('dupdate', 2), ('ddelete', 3)):
                fn = f'wit_{w}_{self.d}_{pid(path)}'
                for t in self.paths(fn):
                    self.message(fn, t, path, p, a, act, w[0] == 'u')
            if a.store is not None:
                self.read(path, p, a)
            if len(path) > 1:
                fn = f'wit_ucreatek_{self.d}_{pid(path)}'
                for t in self.paths(fn):
                    self.one(fn, t, 'evt_up', [(p.no, 0, 10000 + pid(path))], 'a create without its key goes to the producer of its path')
                    self.one(fn, t, 'evt_apply', [], 'a create without its key changes nothing')
        everyone = [x.no for x in self.de.prods] + [x.no for x in self.de.cons]
        ready = [x.no for x in self.de.prods] + self.mc
        for w in ('start', 'make'):
            fn = f'wit_{w}_{self.d}'
            for t in self.paths(fn):
                self.one(fn, t, 'evt_r_made', everyone, 'every producer and consumer takes part, once', key=lambda e: e.targs[0])
                self.one(fn, t, 'evt_started', ready, 'every producer and every consumer of messages is started, once', key=lambda e: e.targs[0])
                if w == 'make':
                    got = {e.targs[0]: e.args[0] for e in t.evs('evt_r_made')}
                    self.ob(got == {n: ('arg', i) for i, n in enumerate(everyone)}, f'{fn}: arguments go to the actor of their name', t, str(got))
        if any(a.acts for _, a in self.de.paths.values()):
            fn = f'wit_api_{self.d}'
            for t in self.paths(fn):
                n = sum(len(a.acts or ()) for _, a in self.de.paths.values())
                r = sum(1 in (a.acts or ()) for _, a in self.de.paths.values())
                e = t.evs('evt_r_apis')
                self.ob(len(e) == 1 and e[0].args == (C(n, 32), C(n + r, 32)), f'{fn}: the message api has the messages of the definition and no others', t)
                want = {(act, pid(p)): tuple(C(x if act in (a.acts or ()) else 0, 32) for x in (1, 2 if act == 1 else 1)) + (C(0, 32),) * 2 for p, (_, a) in self.de.paths.items() for act in ALL}
                inorder = [(a, pid(p)) for p, (_, x) in self.de.paths.items() for a in x.acts or ()]
                got = [e.targs for e in t.evs('evt_r_nth')]
                self.ob(got == [(1, a, p + 10000 * (a == 0)) for a, p in inorder] + [(0, a, p) for a, p in inorder for _ in range(2 if a == 1 else 1)],
                        f'{fn}: the messages are numbered by their access points, each before those under it, and by their actions', t, str(got))
                got = {e.targs: e.args for e in t.evs('evt_r_api')}
                bad = [k for k in want if got.get(k) != want[k]]
                self.ob(not bad and len(got) == len(want), f'{fn}: each action of an access point has its messages in both directions', t, f'action {bad[0][0]} of path {bad[0][1]}: {got.get(bad[0])}' if bad else '')

    def store(self, fn, t, path, a, act):
        ap = t.evs('evt_apply')
        want = [] if a.store is None else [(pid(path), 100 if a.entity is None else a.entity, act, pid(path))]
        if a.store == 1 and not ap:
            want = []
        self.ob([e.targs for e in ap] == want, f'{fn}: the store of the path, made for its entity, is the one that changes', t, f'{[e.targs for e in ap]} instead of {want}')
        return ap

    def listening(self, path):
        return self.de.listeners.get(path, [])

    def message(self, fn, t, path, p, a, act, up):
        n = pid(path)
        ap = self.store(fn, t, path, a, act)
        self.one(fn, t, 'evt_up', [(p.no, act, n)] if up else [], 'an upstream message goes to the producer whose access point it is, alone')
        self.one(fn, t, 'evt_down', [] if up else [(c, act, n) for c in self.mc], 'a downstream message goes to every consumer of messages')
        fs = t.evs('evt_foreign')
        self.one(fn, t, 'evt_foreign', [(pid(l), act, n) for l in self.listening(path)], 'the stores listening to the path are offered the message')
        for w in T.worlds(t.facts, [e.res for e in ap + fs]):
            want = []
            if ap and (a.store == 2 or a.store == 0 and w.get(ap[0].res)):
                want += [(c, n) for c in self.sc]
            for e in fs:
                if w.get(e.res):
                    want += [(c, e.targs[0]) for c in self.sc]
            self.one(fn, t, 'evt_notify', want, 'consumers of changes are told of each changed path')

    def read(self, path, p, a):
        n = pid(path)
        for w in ('uread', 'match'):
            fn = f'wit_{w}_{self.d}_{n}'
            for t in self.paths(fn):
                ls = t.evs('evt_lookup')
                self.ob(ls and all(e.targs == (n, n) for e in ls), f'{fn}: the store of the path is the one that is asked', t)
                for v in (0, 1, 2):
                    if not ls or not T.allows(t.facts, {ls[0].res: C(v, 32)}):
                        continue
                    if w == 'uread':
                        self.store(fn, t, path, a, 1)
                        self.one(fn, t, 'evt_up', [(p.no, 1, n)] if v == 0 else [], 'a read goes to the producer when the store knows nothing yet')
                        self.one(fn, t, 'evt_down', [(c, 1, n) for c in self.mc] if v == 2 else [], 'a read is answered when the store knows the value')
                        self.one(fn, t, 'evt_foreign', [(pid(l), 1, n) for l in self.listening(path)], 'the stores listening to the path are offered the read')
                    else:
                        self.one(fn, t, 'evt_seen', [(2 if v == 2 else 1,)], 'a value is handed over, or that it is not known')
                        if v:
                            self.one(fn, t, 'evt_up', [], 'nothing is asked of the producer')
                        else:
                            self.ob(all(e.targs == (p.no, 1, n) for e in t.evs('evt_up')) and len(t.evs('evt_up')) <= 1, f'{fn}: the producer of the path is asked', t)


def c33(chk):
    """Twenty definitions (single and listed producers, consumers and access points; nesting three deep; every kind of store, none at all; subsets of the actions; listeners; names and none), each written in up to three equivalent ways;
    for each path every message in both directions, matching, creating without a key, construction by name, and the generated message api, are compared with what the definition means."""
    ds = list(shapes())
    jobs = []
    for i, de in enumerate(ds):
        for form in range(3):
            jobs.append((de, form, f'{i}{"abc"[form]}'))
    units = [jobs[k::30] for k in range(30)]
    mods = core.pmap(lambda us: module([x for de, form, d in us for x in de.witness(d, form)]), units)
    for us, mod in zip(units, mods):
        for de, form, d in us:
            Run(chk, mod, d, form, de).run()
    chk.sample(ds[3].text(0)[:300])


CHECKS = {'C33': (c33, 3000)}
