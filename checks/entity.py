"""Entities, keys and unique ids."""
from sa import core, terms as T
from sa.terms import C

N = ['x', 'y']
MEMBERS = {'flat': ('abcd', (1, 3, 2, 4)), 'two': ('xy', (1, 1)), 'one': (('only',), (1,))}


def c26(chk):
    """Binding, member access, equality and hashing of entities (with opaque members, nested entities, empty members, members of the same type), of
    keys and of unique ids: which storage is handed out, which comparisons decide, which values make up the digest, on every path."""
    mod = core.compile_ir('entity')

    def go(fn):
        ts = chk.explore(mod, fn, unroll=24).traces
        chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
        return [t for t in ts if t.kind == 'ret']

    def one(t, fn, name, targ, word):
        es = [e for e in t.evs(name) if e.targs and e.targs[0] == targ]
        chk.ob(len(es) == 1, f'{fn}: {word}', f'{name}<{targ}> {len(es)} times', trace=t)
        return es[0].args if len(es) == 1 else [None, None]

    def text(t):
        b, off, _ = T.split_ptr(t)
        by = mod.globals.get(b[1], {}).get('bytes') if b[0] == 'g' else None
        return bytes(by[off:]).split(b'\0')[0].decode('latin1') if by else None

    def parts(fn, kinds, addr=True, const=None, names=None):
        """the callable receives these parts, in order: kind, value and storage"""
        for t in go(fn):
            n = [e.args[0] for e in t.evs('evt_r_count')]
            chk.ob(n == [C(len(kinds), 32)], f'{fn}: every part is given, and nothing else', f'{[T.show(x) for x in n]} parts instead of {len(kinds)}', trace=t)
            if n != [C(len(kinds), 32)]:
                continue
            for i, k in enumerate(kinds):
                got = one(t, fn, 'evt_r_item', i, 'each part is given once')
                want = one(t, fn, 'evt_r_val', i, '(the witness shows each part)')
                chk.ob(got == [C(k, 32), want[0]] or tuple(got) == (C(k, 32), want[0]), f'{fn}: the parts come in the order of their definition, each with its own value',
                       f'part {i} is {T.show(got[0], N)} with {T.show(got[1], N)}', trace=t)
                if const is not None:
                    e = [e for e in t.evs('evt_r_item') if e.targs[0] == i][0]
                    chk.ob(e.targs[1] == const, f'{fn}: a part is as constant as the whole', f'part {i}', trace=t)
                if addr:
                    chk.ob(one(t, fn, 'evt_r_addr', i, 'each part is given once') == one(t, fn, 'evt_r_addr', 90 + i, '(the witness shows each part)'),
                           f'{fn}: a part is the storage of that member itself, not a copy', f'part {i}', trace=t)
            if names:
                got = [(text(e.args[0]), e.args[1]) for e in t.evs('evt_r_name')]
                chk.ob([(g or '')[:n[1]] for g, n in got] == list(names), f'{fn}: each part comes with the name of that member', f'{got} instead of {names}', trace=t)
            chk.sample(f'{fn}: {t.show(N)}'[:300])

    parts('wit_seq_flat', MEMBERS['flat'][1], const=1)
    parts('wit_seqm_flat', MEMBERS['flat'][1], const=0)
    parts('wit_map_flat', MEMBERS['flat'][1], const=1, names=MEMBERS['flat'][0])
    parts('wit_mapm_flat', MEMBERS['flat'][1], const=0, names=MEMBERS['flat'][0])
    for k in ('two', 'one'):
        parts(f'wit_seq_{k}', MEMBERS[k][1], const=1)
        parts(f'wit_map_{k}', MEMBERS[k][1], const=1, names=MEMBERS[k][0])
    parts('wit_seq_deep', (5, 1, 5), const=1)
    parts('wit_seq_tuple', (1, 2, 1), addr=False)
    parts('wit_seq_pair', (1, 2), addr=False)
    parts('wit_seq_just', (1,), addr=False)
    parts('wit_seq_nothing', ())
    parts('wit_seq_none', ())
    parts('wit_get_flat', MEMBERS['flat'][1], const=1)
    parts('wit_name_flat', MEMBERS['flat'][1], const=0)
    parts('wit_state_flat', MEMBERS['flat'][1], const=0)
    for t in go('wit_state_self'):
        chk.ob(one(t, 'wit_state_self', 'evt_r_addr', 0, 'given once') == one(t, 'wit_state_self', 'evt_r_addr', 90, 'given once'), 'wit_state_self: the state of an entity is itself', t.show(), trace=t)
    parts('wit_map_map', (1, 2), const=0, names='ab')
    for fn in ('wit_write_flat', 'wit_write_tuple', 'wit_write_entity_map', 'wit_write_map'):
      for t in go(fn):
        v = ('arg', 0)
        want = [v, T.binop('add', 64, v, C(2, 64)), T.binop('add', 64, v, C(1, 64)), C(ord('x'), 64)]
        want = {'wit_write_tuple': [want[0], want[2], want[1], want[3]], 'wit_write_map': [want[0], want[2]]}.get(fn, want)
        chk.ob([e.args[0] for e in t.evs('evt_r_val')] == want, f'{fn}: what is written through a binding is in the member', t.show(), trace=t)

    for t in go('wit_key_value'):
        chk.ob([e.args[0] for e in t.evs('evt_r_val')] == [('arg', 0)] * 4, 'wit_key_value: a key holds the value it is made with, and using it as a name yields the value paired', t.show(N), trace=t)
    core.facts(chk, '#include "wit.hpp"\n#include <nbdl/entity.hpp>\n#include <nbdl/key.hpp>\n#include <nbdl/uid.hpp>\nusing K = nbdl::key<int, wit::u64>; using L = nbdl::key<long, wit::u64>;', [
        ('there are no keys without a value', '!std::is_default_constructible_v<K>'),
        ('values do not turn into keys silently', '!std::is_convertible_v<wit::u64, K> && std::is_constructible_v<K, wit::u64>'),
        ('keys of different entities are different types and do not turn into each other', '!std::is_same_v<K, L> && !std::is_convertible_v<K, L> && !std::is_constructible_v<K, L>'),
        ('keys of an entity are the same whatever its qualifiers', 'std::is_same_v<nbdl::key<int const&, wit::u64>, K>'),
        ('an id has sixteen bytes', 'std::tuple_size<nbdl::uid>::value == 16 && sizeof(nbdl::uid) == 16'),
        ('ids can be made empty and copied', 'std::is_default_constructible_v<nbdl::uid> && std::is_copy_constructible_v<nbdl::uid> && std::is_copy_assignable_v<nbdl::uid>')])

    # equality
    def equal(fn, n):
        atoms = [T.icmp('eq', ('arg', i), ('arg', n + i)) for i in range(n)]
        for t in go(fn):
            for w in T.worlds(t.facts, atoms):
                if not T.allows(t.facts, w):
                    continue
                got = [T.evaluate(e.args[0], w) for e in t.evs('evt_equal')]
                want = all(w.get(a) for a in atoms)
                chk.ob(got == [C(int(want), 1)], f'{fn}: equal exactly when every part is', f'{[T.show(g) for g in got]} where the parts are equal: {[bool(w.get(a)) for a in atoms]}', trace=t)
    for fn, n in (('wit_equal_flat', 4), ('wit_nequal_flat', 4), ('wit_equal_two', 2), ('wit_equal_one', 1), ('wit_equal_deep', 5), ('wit_equal_key', 1), ('wit_equal_cpath', 2)):
        equal(fn, n)

    def compared(f, v, out):
        """bytes known to be equal; None when something else is known"""
        if f[0] == 'op' and f[1] == ('and' if v else 'or') and f[2] == 1:
            return compared(f[3], v, out) and compared(f[4], v, out)
        if f[0] == 'icmp' and f[1] in ('eq', 'ne') and (f[1] == 'eq') == v and f[2][0] == 'load' and f[3][0] == 'load':
            a, b = f[2], f[3]
            if {a[1], b[1]} == {('arg', 0), ('arg', 1)} and a[2:4] == b[2:4]:
                out |= set(range(a[2], a[2] + a[3]))
        return True

    for fn in ('wit_equal_uid', 'wit_nequal_uid'):
        kinds = set()
        for t in go(fn):
            got = [e.args[0] for e in t.evs('evt_r_is')]
            if len(got) == 1 and not T.is_c(got[0]):
                cases = [(v, dict(t.facts) | {got[0]: v}) for v in (True, False)]
            else:
                cases = [(got == [C(1, 1)], t.facts)]
            for v, facts in cases:
                kinds.add(v)
                eq = set()
                for f, x in facts.items():
                    compared(f, x, eq)
                if v:
                    chk.ob(eq == set(range(16)), f'{fn}: ids are equal only if all sixteen bytes are', f'only bytes {sorted(eq)} are compared', trace=t)
                else:
                    chk.ob(eq != set(range(16)) and any(not x if f[0] == 'icmp' and f[1] == 'eq' or f[0] == 'op' else x for f, x in facts.items()),
                           f'{fn}: ids differ only if a byte does', t.show(), trace=t)
        chk.ob(kinds == {True, False}, f'{fn}: both outcomes occur', str(kinds))

    # hashing
    digests = {}

    def digest(fn, parts):
        for t in go(fn):
            h = [e.args[0] for e in t.evs('evt_hash')]
            chk.ob(len(h) == 1, f'{fn}: one digest', str(len(h)))
            digests.setdefault(fn, h)
            sub = T.parts(h[0]) if h else set()
            for i, p in enumerate(parts):
                chk.ob(p in sub, f'{fn}: every part counts in the digest', f'part {i} ({T.show(p)}) does not')
            extra = [s for s in sub if s[0] in ('res', 'load', 'alloca', 'new', 'g', 'undef') or s[0] == 'pure' and s[1] not in ('hash_a', 'hash_b', 'combine')]
            extra = [s for s in extra if s not in parts]
            chk.ob(not extra, f'{fn}: the digest depends on the parts alone', str([T.show(s) if s[0] in ('res', 'alloca', 'new', 'g') else s[:2] for s in extra][:3]))

    def a(i):
        return ('pure', 'hash_a', 'i64', (('arg', i),))

    def b(i):
        return ('pure', 'hash_b', 'i64', (('arg', i),))
    digest('wit_hash_flat', [a(0), ('arg', 1), b(2), ('arg', 3)])
    digest('wit_hash_two', [a(0), a(1)])
    digest('wit_hash_one', [a(0)])
    digest('wit_hash_deep', [a(0), b(1), a(2), a(3), b(4)])
    digest('wit_hash_tuple', [a(0), b(1)])
    digest('wit_hash_var0', [a(0)])
    digest('wit_hash_var1', [b(0)])
    digest('wit_hash_var2', [])
    for n in range(4):
        digest(f'wit_hash_bag{n}', [a(i) for i in range(n)])
    digest('wit_hash_uid', [('load', ('arg', 0), i, 1, 0, ()) for i in range(16)])
    ids = [T.evaluate(digests[f'wit_hash_var{k}'][0], {b(0): a(0)}) for k in range(3)]
    chk.ob(len(set(ids)) == 3, 'the alternative held counts in the digest of a variant', 'two alternatives with the same value have the same digest')

    # unique ids
    for fn, gens in (('wit_draw', 1), ('wit_draw2', 2)):
        for t in go(fn):
            seeds = [e.res for e in t.evs('evt_device')]
            chk.ob(len(seeds) >= gens, f'{fn}: every generator is seeded by the system', f'{len(seeds)} seeds', trace=t)
            vals = [one(t, fn, 'evt_r_val', i, '(the witness shows each byte)')[0] for i in range(32)]
            seen = set()
            for i, v in enumerate(vals):
                bs = T.bits(v, 64)[:8]
                ok = all(x is None or not isinstance(x, int) and any(s[0] == 'res' for s in T.subterms(x[0])) for x in bs)
                chk.ob(ok, f'{fn}: every bit of an id is drawn from the generator', f'byte {i} is {T.show(v)}', trace=t)
                known = [x for x in bs if x is not None and not isinstance(x, int)]
                chk.ob(not seen & set(known) and len(set(known)) == len(known), f'{fn}: no bit of an id is used twice, within an id or in the next', f'byte {i} is {T.show(v)}', trace=t)
                seen |= set(known)
            if gens == 2:
                used = {e.args[0] for e in t.evs('evt_draw')}
                chk.ob(len(used) == 2, f'{fn}: each generator draws from its own seed', str([T.show(x) for x in used]), trace=t)
    for t in go('wit_swap'):
        for i in range(32):
            v = one(t, 'wit_swap', 'evt_r_val', i, '(the witness shows each byte)')[0]
            want = [(('load', ('arg', 1 if i < 16 else 0), i % 16, 1, 0, ()), k) for k in range(8)]
            chk.ob(T.bits(v, 64)[:8] == want, 'wit_swap: swapping exchanges all bytes', f'byte {i} is {T.show(v)}', trace=t)
    for t in go('wit_index'):
        chk.ob(all(e.args[0] == C(1, 1) for e in t.evs('evt_r_is')) and len(t.evs('evt_r_is')) == 17, 'wit_index: indexing, iteration and data agree', t.show(), trace=t)


CHECKS = {'C26': (c26, 150)}
