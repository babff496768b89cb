"""Context: dispatch of messages between stores, producers and consumers."""
from sa import core, terms as T
from sa.terms import C

NONE = C(-1, 64)
A, B, U, P = ('arg', 1), ('arg', 2), ('arg', 3), ('arg', 4)
NAMES = ['ctx', 'key1', 'key2', 'uid', 'payload']

# path id -> (store result mode, owning producer, listening stores)
PATHS = {1: ('01', 'bool', 0, [2, 13]), 2: ('02', 'false', 0, [13]),
         13: ('13', 'bool', 1, []), 14: ('14', 'true', 1, [])}
PRODUCERS, CONSUMERS, STATE_CONSUMERS = [0, 1], [2, 3, 5], [3, 4]

# witness -> (chan, act, message fields, normalised?, entry)
MSGS = {
    'ucreate': (0, 0, (A, NONE, U, P, NONE), False),
    'ucreatek': (0, 0, (A, NONE, NONE, P, NONE), False),
    'ucreaten': (0, 0, (A, B, NONE, P, NONE), True),
    'ucreatex': (0, 0, (A, NONE, U, P, NONE), 'uid'),
    'uupdate': (0, 2, (A, B, U, P, NONE), True),
    'udelete': (0, 3, (A, B, U, NONE, NONE), True),
    'dcreate': (1, 0, (A, B, U, P, C(1, 64)), True),
    'dread': (1, 1, (A, B, U, P, NONE), True),
    'dupdate': (1, 2, (A, B, U, P, C(1, 64)), True),
    'ddelete': (1, 3, (A, B, U, NONE, C(0, 64)), True),
    'hupdate': (1, 2, (A, B, U, P, C(1, 64)), True),
}
READS = {'uread': U, 'ureadn': NONE, 'hread': U}


def load():
    """the context of actors with one role each, then the one in which a producer and a consumer have all of them"""
    global PRODUCERS, CONSUMERS, STATE_CONSUMERS
    for PRODUCERS, CONSUMERS, STATE_CONSUMERS, defines in (([0, 1, 5], [1, 2, 3, 5], [1, 3, 4, 5], ('PEERS',)), ([0, 1], [2, 3, 5], [3, 4], ())):
        yield core.compile_ir('context', defines=defines)


def names_of(t):
    return [e.name for e in t.events]


def each_message(chk, mod):
    for p, (suffix, mode, owner, listeners) in PATHS.items():
        for w, (chan, act, fields, norm) in MSGS.items():
            fn = f'wit_{w}_{suffix}'
            ex = chk.explore(mod, fn)
            for t in ex.traces:
                in_place(chk, t, fn)
                yield p, mode, owner, listeners, w, chan, act, fields, norm, fn, t


def in_place(chk, t, fn, actors_only=False):
    """stores and actors take part themselves, not copies of them"""
    cp = [e for e in t.evs('evt_copied') if e.targs[0] == 1 or not actors_only]
    chk.ob(not cp, f'{fn}: stores and actors take part themselves, not copies', cp[0].show(NAMES) if cp else '',
           loc=cp[0].loc if cp else None, trace=t, names=NAMES)


def msg_path(p, norm):
    return p if norm is True else 1000 + p


def one(chk, t, fn, what, evs, key=None):
    return chk.ob(len(evs) == 1, f'{fn}: {what}', f'happens {len(evs)} times on a path, expected exactly once',
                  loc=evs[0].loc if evs else (t.events[0].loc if t.events else None), trace=t, names=NAMES, key=key)


def exact(chk, t, fn, what, e, args):
    return chk.ob(e.args == tuple(args), f'{fn}: {what}',
                  f'got ({", ".join(T.show(a, NAMES) for a in e.args)}), expected ({", ".join(T.show(a, NAMES) for a in args)})',
                  loc=e.loc, trace=t, names=NAMES)


def c01(chk):
    """store first"""
    for mod in load():
        for p, mode, owner, listeners, w, chan, act, fields, norm, fn, t in each_message(chk, mod):
            chk.ob(t.kind == 'ret', f'{fn}: dispatch completes', t.kind, trace=t, names=NAMES)
            ap = [e for e in t.events if e.name == 'evt_apply']
            if not norm:
                chk.ob(not ap, f'{fn}: a create whose key is not known yet is not applied', 'store was changed',
                       loc=ap[0].loc if ap else None, trace=t, names=NAMES)
                continue
            own = [e for e in ap if e.targs[0] == p]
            # a store whose answer is statically "unchanged" ignores the message: telling it is optional
            if (mode == 'false' and not own) or one(chk, t, fn, 'message is applied to the store of its path', own):
                pass
            for e in own[:1]:
                chk.ob(e.targs == (p, chan, act, msg_path(p, norm)), f'{fn}: the applied message keeps its kind',
                       f'applied as {e.targs}', loc=e.loc, trace=t, names=NAMES)
                exact(chk, t, fn, 'the applied message keeps its content', e, fields)
                i = t.events.index(e)
                early = [x for x in t.events[:i] if x.name in ('evt_up', 'evt_down', 'evt_notify', 'evt_foreign')]
                chk.ob(not early, f'{fn}: nothing is told before the store has the message',
                       f'{early[0].show(NAMES) if early else ""} precedes the application',
                       loc=early[0].loc if early else None, trace=t, names=NAMES)
            other = [e for e in ap if e.targs[0] != p]
            chk.ob(not other, f'{fn}: no other store gets the message applied', other[0].show(NAMES) if other else '',
                   loc=other[0].loc if other else None, trace=t, names=NAMES)
            # listening stores take part after the path's own store
            for l in listeners:
                fo = [e for e in t.events if e.name == 'evt_foreign' and e.targs[0] == l]
                if one(chk, t, fn, f'listening store {l} is offered the message', fo):
                    chk.ob(fo[0].targs == (l, chan, act, msg_path(p, norm)), f'{fn}: listening store {l} is offered this message',
                           str(fo[0].targs), loc=fo[0].loc, trace=t, names=NAMES)
                    exact(chk, t, fn, f'listening store {l} is offered the same content', fo[0], fields)
            fo = [e for e in t.events if e.name == 'evt_foreign' and e.targs[0] not in listeners]
            chk.ob(not fo, f'{fn}: stores that do not listen to the path are not offered the message',
                   fo[0].show(NAMES) if fo else '', loc=fo[0].loc if fo else None, trace=t, names=NAMES)
            if not chk.samples:
                chk.sample(f'{fn}: {t.show(NAMES)}')
        # a read changes the store (placeholder) before anyone is asked
        for p, (suffix, mode, owner, listeners) in PATHS.items():
            for w, uid in READS.items():
                fn = f'wit_{w}_{suffix}'
                for t in chk.explore(mod, fn).traces:
                    ap = t.evs('evt_apply')
                    if one(chk, t, fn, 'read is applied to the store', ap):
                        e = ap[0]
                        chk.ob(e.targs == (p, 0, 1, p), f'{fn}: read is applied to the store of its path', str(e.targs),
                               loc=e.loc, trace=t, names=NAMES)
                        exact(chk, t, fn, 'applied read keeps path and uid', e, (A, B, uid, NONE, NONE))
                        i = t.events.index(e)
                        early = [x for x in t.events[:i] if x.name in ('evt_up', 'evt_down', 'evt_notify', 'evt_lookup')]
                        chk.ob(not early, f'{fn}: the store sees the read first', early[0].show(NAMES) if early else '',
                               loc=early[0].loc if early else None, trace=t, names=NAMES)
                    for l in listeners:
                        one(chk, t, fn, f'listening store {l} is offered the read',
                            [e for e in t.events if e.name == 'evt_foreign' and e.targs[0] == l])


def c02(chk):
    """routing"""
    for mod in load():
        for p, mode, owner, listeners, w, chan, act, fields, norm, fn, t in each_message(chk, mod):
            ups, downs = t.evs('evt_up'), t.evs('evt_down')
            if chan == 0:
                if one(chk, t, fn, 'upstream message reaches a producer', ups):
                    chk.ob(ups[0].targs == (owner, chan, act, msg_path(p, norm)), f'{fn}: upstream message reaches the producer that owns its path',
                           f'sent to producer/kind {ups[0].targs}, owner is {owner}', loc=ups[0].loc, trace=t, names=NAMES)
                    exact(chk, t, fn, 'producer gets the message unchanged', ups[0], fields)
                chk.ob(not downs, f'{fn}: an upstream message is not broadcast to consumers', downs[0].show(NAMES) if downs else '',
                       loc=downs[0].loc if downs else None, trace=t, names=NAMES)
            else:
                chk.ob(not ups, f'{fn}: a downstream message is not sent to a producer', ups[0].show(NAMES) if ups else '',
                       loc=ups[0].loc if ups else None, trace=t, names=NAMES)
                for c in CONSUMERS:
                    ds = [e for e in downs if e.targs[0] == c]
                    if one(chk, t, fn, f'consumer {c} gets the downstream message', ds):
                        chk.ob(ds[0].targs == (c, chan, act, p), f'{fn}: consumer {c} gets this message', str(ds[0].targs),
                               loc=ds[0].loc, trace=t, names=NAMES)
                        exact(chk, t, fn, f'consumer {c} gets the message unchanged', ds[0], fields)
            if not chk.samples:
                chk.sample(f'{fn}: {t.show(NAMES)}')


def notified(chk, t, fn, p, args, what, on):
    """each state consumer notified exactly once of path p with args iff on"""
    for s in STATE_CONSUMERS:
        ns = [e for e in t.events if e.name == 'evt_notify' and e.targs == (s, p)]
        if on is True:
            if one(chk, t, fn, f'state consumer {s} is notified of {what}', ns):
                exact(chk, t, fn, f'state consumer {s} is given the changed path', ns[0], args)
        else:
            chk.ob(not ns, f'{fn}: state consumer {s} is not notified when {what} did not change',
                   'notified although the store ' + ('reported no change' if on is False else 'result was never inspected'),
                   loc=ns[0].loc if ns else None, trace=t, names=NAMES)


def c03(chk):
    """state change notifications"""
    for mod in load():
        for p, mode, owner, listeners, w, chan, act, fields, norm, fn, t in each_message(chk, mod):
            ns = t.evs('evt_notify')
            if not norm:
                chk.ob(not ns, f'{fn}: no notification for a create that is not applied', ns[0].show(NAMES) if ns else '',
                       loc=ns[0].loc if ns else None, trace=t, names=NAMES)
                continue
            # a create whose uid is its key changed the entity at (key1, uid)
            want = (A, U) if norm == 'uid' else (A, B)
            ap = [e for e in t.events if e.name == 'evt_apply' and e.targs[0] == p]
            res = t.facts.get(ap[0].res) if ap else None
            if mode == 'false':
                on = False
            elif mode == 'true':
                on = True
            else:
                chk.ob(res is not None, f'{fn}: the result of applying the message decides about notification',
                       'the result of the store is not inspected on this path', loc=ap[0].loc if ap else None, trace=t, names=NAMES)
                on = res
            notified(chk, t, fn, p, want, 'the message path', on)
            seen = set([p])
            for l in listeners:
                fo = [e for e in t.events if e.name == 'evt_foreign' and e.targs[0] == l]
                if not fo:
                    chk.ob(False, f'{fn}: listening store {l} is offered the message', 'never', trace=t, names=NAMES)
                    continue
                on = t.facts.get(fo[0].res)
                ks = t.evs('evt_foreign_key')
                ks = [k for k in ks if k.targs == (l,)]
                notified(chk, t, fn, l, tuple(k.res for k in ks[:2]) if ks else (), f'the path listening store {l} reported', on)
                seen.add(l)
            extra = [e for e in ns if e.targs[1] not in seen or e.targs[0] not in STATE_CONSUMERS]
            chk.ob(not extra, f'{fn}: no other notification', extra[0].show(NAMES) if extra else '',
                   loc=extra[0].loc if extra else None, trace=t, names=NAMES)
            if t.evs('evt_notify') and not chk.samples:
                chk.sample(f'{fn}: {t.show(NAMES)}')


def lookup_case(t, e):
    """which of the answers the store gave on this path: to be fetched, being fetched, a value, or that there is nothing (a value of its own)"""
    def is_(v):
        f, g = T.icmp('eq', e.res, C(v, 32)), T.icmp('ne', e.res, C(v, 32))
        return True if t.facts.get(f) is True or t.facts.get(g) is False else False if t.facts.get(f) is False or t.facts.get(g) is True else None
    above = lambda n: t.facts.get(T.icmp('ugt', e.res, C(n, 32))) is True or t.facts.get(T.icmp('ult', e.res, C(n + 1, 32))) is False
    for v, k in ((0, 0), (1, 1), (2, 3)):
        if is_(v):
            return k
    return 2 if all(is_(v) is False or above(2) or v < 2 and above(1) for v in (0, 1, 2)) else None


NOTHING = C((1 << 64) - 3, 64)


def read_reply(chk, t, fn, p, owner, uid, look, kind, start=0):
    ups = [e for e in t.events[start:] if e.name == 'evt_up']
    downs = [e for e in t.events[start:] if e.name == 'evt_down']
    what = {0: 'a value that must be fetched', 1: 'a read already in flight', 2: 'a value the store has', 3: 'the answer that there is nothing'}[kind]
    if kind == 0:
        if one(chk, t, fn, f'{what} is requested from a producer', ups):
            chk.ob(ups[0].targs == (owner, 0, 1, p), f'{fn}: the read goes to the owning producer', str(ups[0].targs),
                   loc=ups[0].loc, trace=t, names=NAMES)
            exact(chk, t, fn, 'the producer gets path and uid of the read', ups[0], (A, B, uid, NONE, NONE))
    else:
        chk.ob(not ups, f'{fn}: {what} does not bother the producer', ups[0].show(NAMES) if ups else '',
               loc=ups[0].loc if ups else None, trace=t, names=NAMES)
    if kind >= 2:
        st = [e for e in t.events if e.name == 'evt_stored' and t.events.index(e) > t.events.index(look)]
        has = NOTHING if kind == 3 else st[0].res if st else NONE
        for c in CONSUMERS:
            ds = [e for e in downs if e.targs[0] == c]
            if one(chk, t, fn, f'consumer {c} gets the reply with {what}', ds):
                chk.ob(ds[0].targs == (c, 1, 1, p), f'{fn}: the reply is a downstream read of the same path', str(ds[0].targs),
                       loc=ds[0].loc, trace=t, names=NAMES)
                exact(chk, t, fn, 'the reply carries path, uid and the stored value', ds[0],
                      (A, B, uid, has, NONE))
    else:
        chk.ob(not downs, f'{fn}: no reply for {what}', downs[0].show(NAMES) if downs else '',
               loc=downs[0].loc if downs else None, trace=t, names=NAMES)


def c04(chk):
    """read protocol"""
    for mod in load():
        for p, (suffix, mode, owner, listeners) in PATHS.items():
            for w, uid in READS.items():
                fn = f'wit_{w}_{suffix}'
                kinds = set()
                for t in chk.explore(mod, fn).traces:
                    in_place(chk, t, fn)
                    lk = [e for e in t.events if e.name == 'evt_lookup']
                    if not one(chk, t, fn, 'the store is asked for the value', lk):
                        continue
                    chk.ob(lk[0].targs == (p,), f'{fn}: the store of the path is asked', str(lk[0].targs), loc=lk[0].loc, trace=t, names=NAMES)
                    exact(chk, t, fn, 'the store is asked for the key of the read', lk[0], (A, B))
                    k = lookup_case(t, lk[0])
                    if not chk.ob(k is not None, f'{fn}: the answer of the store is inspected', 'not on this path', loc=lk[0].loc, trace=t, names=NAMES):
                        continue
                    kinds.add(k)
                    read_reply(chk, t, fn, p, owner, uid, lk[0], k)
                    ns = [e for e in t.evs('evt_notify') if e.targs[1] == p]
                    if k == 2:
                        chk.sample(f'{fn}: {t.show(NAMES)}')
                chk.ob(kinds == {0, 1, 2, 3}, f'{fn}: all answers of the store are handled', f'only {sorted(kinds)}')


def c05(chk):
    """reads through the context"""
    for mod in load():
        for p, (suffix, mode, owner, listeners) in PATHS.items():
            for w in ('match', 'hmatch'):
                fn = f'wit_{w}_{suffix}'
                for t in chk.explore(mod, fn).traces:
                    in_place(chk, t, fn)
                    lk = t.evs('evt_lookup')
                    if not chk.ob(bool(lk), f'{fn}: the store is asked', '', trace=t, names=NAMES):
                        continue
                    chk.ob(lk[0].targs == (p,), f'{fn}: the store of the path is asked', str(lk[0].targs), loc=lk[0].loc, trace=t, names=NAMES)
                    exact(chk, t, fn, 'the store is asked for that key', lk[0], (A, B))
                    k = lookup_case(t, lk[0])
                    seen = t.evs('evt_seen')
                    if not one(chk, t, fn, 'the reader is called', seen):
                        continue
                    s = seen[0]
                    if k in (2, 3):
                        st = t.evs('evt_stored')
                        chk.ob(s.targs[0] == 2 and s.args == (NOTHING if k == 3 else st[0].res,), f'{fn}: the reader sees the stored value', s.show(NAMES), loc=s.loc, trace=t, names=NAMES)
                        chk.ob(s.targs[1] == 1, f'{fn}: the reader cannot modify the stored value', 'the value is handed out as mutable', loc=s.loc, trace=t, names=NAMES)
                        chk.sample(f'{fn}: {t.show(NAMES)}')
                    elif k in (0, 1):
                        chk.ob(s.targs[0] == 1, f'{fn}: a reader of a missing or pending value sees it as unresolved', s.show(NAMES), loc=s.loc, trace=t, names=NAMES)
                    msgs = t.evs('evt_apply', 'evt_up', 'evt_down', 'evt_notify', 'evt_foreign')
                    if k == 0:
                        ap = [e for e in t.evs('evt_apply')]
                        if one(chk, t, fn, 'a missing value triggers a read', ap):
                            chk.ob(ap[0].targs == (p, 0, 1, p), f'{fn}: the triggered message is an upstream read of the path', str(ap[0].targs), loc=ap[0].loc, trace=t, names=NAMES)
                            exact(chk, t, fn, 'the triggered read names the key', ap[0], (A, B, NONE, NONE, NONE))
                        if len(lk) > 1:
                            k2 = lookup_case(t, lk[1])
                            if k2 is not None:
                                read_reply(chk, t, fn, p, owner, NONE, lk[1], k2, t.events.index(lk[1]))
                    else:
                        chk.ob(not msgs, f'{fn}: reading a value that is present or pending sends nothing', msgs[0].show(NAMES) if msgs else '',
                               loc=msgs[0].loc if msgs else None, trace=t, names=NAMES)
        # get: a reference into the store of that path, nothing else happens
        refs = {}
        for p, (suffix, mode, owner, listeners) in PATHS.items():
            for w in ('get', 'hget'):
                fn = f'wit_{w}_{suffix}'
                for t in chk.explore(mod, fn).traces:
                    g = t.evs('evt_get')
                    if one(chk, t, fn, 'the store is asked', g):
                        chk.ob(g[0].targs == (p,), f'{fn}: the store of the path is asked', str(g[0].targs), loc=g[0].loc, trace=t, names=NAMES)
                        exact(chk, t, fn, 'for that key', g[0], (A, B))
                    chk.ob(len(t.events) == 1, f'{fn}: get has no side effect', t.show(NAMES), trace=t, names=NAMES)
                    b, o, v = T.split_ptr(t.ret)
                    chk.ob(b[0] in ('arg', 'load') and not v, f'{fn}: get returns a reference into the context', T.show(t.ret, NAMES), trace=t, names=NAMES)
                    if b[0] in ('arg', 'load'):
                        refs.setdefault((w, o), set()).add(p)
        for (w, o), ps in refs.items():
            chk.ob(len(ps) == 1, f'{w}: different paths have different stores', f'paths {sorted(ps)} share the store at offset {o}')


def c06(chk):
    """actor initialisation"""
    for mod in load():
        for t in chk.explore(mod, 'wit_fixed').traces:
            chk.type_ob([e.args[0] for e in t.evs('evt_r_copies')] == [C(0, 1)],
                        'a context cannot be copied away from the actors that know it', t.show())
        for fn in ('wit_init', 'wit_init_args', 'wit_make', 'wit_make_some'):
            for t in chk.explore(mod, fn).traces:
                if t.kind != 'ret':
                    continue
                in_place(chk, t, fn, actors_only=True)
                for i in PRODUCERS:
                    one(chk, t, fn, f'producer {i} is initialised', [e for e in t.events if e.name == 'evt_producer_init' and e.targs == (i,)])
                for i in CONSUMERS:
                    one(chk, t, fn, f'consumer {i} is initialised', [e for e in t.events if e.name == 'evt_consumer_init' and e.targs == (i,)])
                seen_consumer = False
                for e in t.events:
                    if e.name == 'evt_consumer_init':
                        seen_consumer = True
                    if e.name == 'evt_producer_init':
                        chk.ob(not seen_consumer, f'{fn}: all producers are ready before any consumer starts',
                               f'{e.show()} after a consumer was initialised', loc=e.loc, trace=t)
                    if e.name in ('evt_producer_init', 'evt_consumer_init'):
                        made = [x for x in t.events if x.name == 'evt_actor']
                        late = [x for x in made if t.events.index(x) > t.events.index(e)]
                        chk.ob(not late, f'{fn}: every actor exists before the first is initialised', e.show(), loc=e.loc, trace=t)
                made = t.evs('evt_actor')
                for i in range(6):
                    m = [e for e in made if e.targs[0] == i]
                    if one(chk, t, fn, f'actor {i} is constructed', m):
                        want = {'wit_init': NONE, 'wit_init_args': ('arg', 1 + i), 'wit_make': ('arg', 5 - i),
                                'wit_make_some': ('arg', 0) if i == 4 else NONE}[fn]
                        chk.ob(m[0].args[1:] == (want,), f'{fn}: actor {i} gets the argument passed for it', m[0].show(), loc=m[0].loc, trace=t)
                        ctx = m[0].args[0]
                        chk.ob(ctx == made[0].args[0], f'{fn}: every actor is attached to the same context', m[0].show(), loc=m[0].loc, trace=t)
                        want_ctx = ('arg', 0) if fn.startswith('wit_init') else None
                        if want_ctx:
                            chk.ob(ctx == want_ctx, f'{fn}: actors are attached to the context being built', T.show(ctx), loc=m[0].loc, trace=t)
                        else:
                            chk.ob(t.ret == ctx, f'{fn}: actors are attached to the context that is returned', T.show(ctx), loc=m[0].loc, trace=t)
                if not chk.samples:
                    chk.sample(f'{fn}: {t.show()}')


CHECKS = {
    'C01': (c01, 1500), 'C02': (c02, 900), 'C03': (c03, 1500), 'C04': (c04, 600), 'C05': (c05, 700), 'C06': (c06, 150),
}
