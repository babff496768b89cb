"""Base64."""
import itertools
from sa import bytesets as B, core, terms as T
from sa.terms import C

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
VAL = {c: i for i, c in enumerate(ALPHA)}
SETS = {'A': B.mask_of(ALPHA), 'P': B.mask_of(b'='), 'X': B.ALL & ~B.mask_of(ALPHA + b'=')}


def byte(i):
    return ('load', ('arg', 0), i, 1, 0, ())


def bit(i, b, sets, val=lambda c: c):
    m = 0
    for c in B.members(sets.get(byte(i), B.ALL)):
        m |= (val(c) >> b & 1) << c
    return 0 if m == 0 else 1 if m == sets.get(byte(i), B.ALL) else (byte(i), m)


def is_alpha(tb, t, want, sets):
    """t is the character of the alphabet at the index whose bits are `want` (lowest first)"""
    atoms = tb.atoms_of(t)
    exp = {w[0] for w in want if not isinstance(w, int)}
    if t[0] == 'load' and len(t[5]) == 1 and t[5][0][1] == 1 and t[1][0] == 'g':
        by = tb.mod.globals.get(t[1][1], {}).get('bytes') or []
        idx = t[5][0][0]
        bs = B.bits(tb, idx, T.width_of(idx) or 64, sets)
        # indices that the constant bits allow
        ok = bs[:6] == want and not any(b != 0 for b in bs[6:])
        for i in range(64):
            if ok and all(b not in (0, 1) or b == i >> k & 1 for k, b in enumerate(want)):
                ok = t[2] + i < len(by) and 0 <= t[2] + i and by[t[2] + i] == ALPHA[i]
        if ok:
            return True
    if atoms is None or len(atoms) > 2 or not exp <= atoms:
        return False
    atoms = sorted(atoms, key=repr)
    for vs in itertools.product(*[B.members(sets.get(a, B.ALL)) for a in atoms]):
        env = dict(zip(atoms, vs))
        i = sum((w if isinstance(w, int) else w[1] >> env[w[0]] & 1) << k for k, w in enumerate(want))
        if tb.value(t, env) != ALPHA[i]:
            return False
    return True


def flow(t):
    """events without those of the memory the library uses for itself"""
    return [e for e in t.events if e.name not in ('new', 'delete', 'call')]


def c25(chk):
    """Encoding byte sequences of every length up to 12 (and 20, 33, 48), decoding texts of every length up to 8 (and 12, 16, 24, 36) with every character
    in the alphabet, padding or neither: length, acceptance and the origin of every bit of every byte written, on every path."""
    mod = core.compile_ir('base64')
    N = ['x', 'y']

    def encode(sub, item):
        n, ty = item
        fn = f'wit_enc_{ty}_{n}'
        ex = sub.explore(mod, fn, unroll=200, bytes={byte(i): B.ALL for i in range(n)})
        sub.ob(bool(ex.traces), f'{fn}: completes')
        for t in ex.traces:
            if not sub.ob(t.kind == 'ret', f'{fn}: encoding completes', t.show(N), trace=t, names=N):
                continue
            sets = {a: t.bytes.get(a, B.ALL) for a in (byte(i) for i in range(n))}
            ln = [e.args[0] for e in t.evs('evt_r_len')]
            sub.ob(ln == [C((n + 2) // 3 * 4, 64)], f'{fn}: the text has four characters for every three bytes begun', str(ln), trace=t, names=N)
            out = {e.args[0][1]: e.args[1] for e in t.evs('evt_r_ch')}
            for k in range((n + 2) // 3 * 4):
                g, r = divmod(k, 4)
                bits = [8 * 3 * g + 6 * r + j for j in range(5, -1, -1)]      # lowest first, as bit numbers from the start
                c = out.get(k)
                if bits[-1] >= 8 * n:
                    sub.ob(c == C(61, 8), f'{fn}: character {k} is padding', T.show(c, N) if c else 'absent', trace=t, names=N)
                    continue
                want = [bit(b // 8, 7 - b % 8, sets) if b < 8 * n else 0 for b in bits]
                ok = c is not None and is_alpha(ex.tables, c, want, sets)
                sub.ob(ok, f'{fn}: character {k} is the one of the alphabet for bits {bits[-1]} to {bits[0]} of the bytes', T.show(c, N)[:300] if c else 'absent', trace=t, names=N)
            sub.sample(f'{fn}: {t.show(N)[:600]}')

    def decode(sub, item):
        fn, n, m, cl = item
        sets0 = {byte(i): SETS[c] for i, c in enumerate(cl)}
        ex = sub.explore(mod, fn, unroll=200, bytes=dict(sets0))
        text = ''.join(cl)
        body = text.rstrip('P')
        pads = n - len(body)
        valid = n % 4 == 0 and 'X' not in text and 'P' not in body and pads <= 2
        size = 3 * n // 4 - pads if valid else None
        what = f'{fn} on a text like {text or "(empty)"}'
        sub.ob(bool(ex.traces), f'{what}: completes')
        for t in ex.traces:
            if not sub.ob(t.kind == 'ret', f'{what}: decoding completes', t.show(N)[:400], trace=t, names=N, key=f'{fn}: completes'):
                continue
            ln = [e.args[0] for e in t.evs('evt_r_len')]
            out = {e.args[0][1]: e.args[1] for e in t.evs('evt_r_ch')}
            oks = [e.args[0] for e in t.evs('evt_r_ok')]
            sets = {a: t.bytes.get(a, s) for a, s in sets0.items()}
            if '_new_' in fn:
                good = valid
                sub.ob(ln == [C(size if valid else 0, 64)], f'{what}: {"decodes to three bytes for every four characters" if valid else "decodes to nothing"}',
                       str([T.show(x, N) for x in ln]), trace=t, names=N)
            else:
                good = valid and (m is None or m == size)
                sub.ob(oks == [C(int(good), 1)], f'{what}: {"is accepted" if good else "is refused"}', str([T.show(x, N) for x in oks]), trace=t, names=N)
                if good:
                    sub.ob(ln == [C(size, 64)], f'{what}: the buffer is given its size', str([T.show(x, N) for x in ln]), trace=t, names=N)
                elif m is not None:
                    for k in range(m):
                        sub.ob(out.get(k) == ('load', ('arg', 1), k, 1, 0, ()), f'{what}: a refused text leaves a buffer of fixed size as it is',
                               T.show(out[k], N) if k in out else 'absent', trace=t, names=N)
            if not good:
                continue
            for k in range(size):
                bits = [8 * k + j for j in range(7, -1, -1)]
                want = [bit(b // 6, 5 - b % 6, sets, lambda c: VAL[c]) for b in bits]
                got = B.bits(ex.tables, out[k], 8, sets) if k in out else None
                sub.ob(got == want, f'{what}: byte {k} is made of the values of its characters', T.show(out[k], N)[:300] if k in out else 'absent', trace=t, names=N)

    def classes(n):
        if n <= 4:
            return list(itertools.product('APX', repeat=n))
        out = {('A',) * n}
        for p in range(1, min(n, 5)):
            out.add(('A',) * (n - p) + ('P',) * p)
        for i in range(n):
            for p in range(3):
                for c in 'PX':
                    t = ['A'] * (n - p) + ['P'] * p
                    t[i] = c
                    out.add(tuple(t))
        return sorted(out)

    lens = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 33, 48)
    jobs = [(encode, (n, ty)) for n in lens for ty in 'usc']
    for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 36):
        for cl in classes(n):
            jobs += [(decode, (f'wit_dec_new_{n}', n, None, cl)), (decode, (f'wit_dec_into_{n}', n, None, cl))]
    for n, m in ((0, 0), (0, 1), (4, 1), (4, 2), (4, 3), (4, 4), (8, 4), (8, 5), (8, 6), (8, 7), (1, 0), (4, 0), (5, 3), (2, 1)):
        for cl in classes(n):
            jobs += [(decode, (f'wit_dec_{k}_{n}_{m}', n, m, cl)) for k in ('arr', 'chr')]
    chunks = [jobs[i::64] for i in range(64)]
    chk.parallel(lambda sub, ch: [f(sub, x) for f, x in ch], chunks)


CHECKS = {'C25': (c25, 3000)}
