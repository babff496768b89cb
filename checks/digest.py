"""The digests the library computes itself."""
import functools
import multiprocessing
from sa import core, dag


def reference(g, data, before=0):
    """SHA-1 of the bytes (FIPS 180-4), as nodes of the graph; or its end after so many bytes, from the state of the start"""
    c32 = lambda v: g.const(v, 32)
    n = len(data)
    m = list(data) + [g.const(0x80, 8)] + [g.const(0, 8)] * ((55 - n) % 64) + [g.const(8 * (before + n) >> 8 * k, 8) for k in range(7, -1, -1)]
    h = [c32(x) for x in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)]
    add = lambda *xs: functools.reduce(g.add, xs)
    xor = lambda *xs: functools.reduce(g.xor, xs)
    for at in range(0, len(m), 64):
        w = [g.cat(m[at + 4 * t:at + 4 * t + 4][::-1]) for t in range(16)]
        for t in range(16, 80):
            w.append(g.rot(xor(w[t - 3], w[t - 8], w[t - 14], w[t - 16]), 1))
        a, b, c, d, e = h
        for t in range(80):
            if t < 20:
                f, k = xor(g.and_(b, c), g.and_(g.not_(b), d)), 0x5a827999
            elif 40 <= t < 60:
                f, k = xor(g.and_(b, c), g.and_(b, d), g.and_(c, d)), 0x8f1bbcdc
            else:
                f, k = xor(b, c, d), 0x6ed9eba1 if t < 40 else 0xca62c1d6
            a, b, c, d, e = add(g.rot(a, 5), f, e, c32(k), w[t]), a, g.rot(b, 30), c, d
        h = [g.add(x, y) for x, y in zip(h, (a, b, c, d, e))]
    return [b for x in h for b in g.bytes(x)[::-1]]


def digest(mod, fn, n, first, second):
    g = dag.Graph()
    run = dag.Run(mod, g)
    data, out = run.region(), run.region()
    atoms = [g.atom(k) for k in range(max(n, first) if fn != 'wit_end' else n)]
    run.mem[data] = dict(enumerate(atoms))
    c = lambda v: g.const(v, 64)
    run.call(fn, [('p', data, 0), c(n), c(first), c(second), ('p', out, 0)])
    m = run.mem.get(out, {})
    return g, run, atoms, [m.get(k) for k in range(max([19, *m]) + 1)], sorted(k for k in m if not 0 <= k < 20)


def c35(chk):
    """For every length up to 200 bytes, given whole, and in pieces at every boundary around the blocks, and for the ends of messages of up to 2^60 bytes: the data flow from the bytes to the digest
    is numbered and compared with the function of FIPS 180-4, for unknown bytes."""
    mod = core.compile_ir('digest', opt=False)
    if not all(f in mod.fns for f in ('wit_digest', 'wit_again', 'wit_end')):
        raise core.AnalysisError('witness functions are gone')
    jobs = [('wit_digest', n, n, 0) for n in range(201)]
    jobs += [('wit_digest', n, a, b) for n in (1, 60, 64, 130, 200) for a, b in ((0, 0), (0, n), (1, 0), (n - 1, 1), (n // 2, n // 4), (55, 1), (56, 8), (60, 40), (63, 1), (63, 2), (64, 64), (65, 63), (64, 65))
             if a + b <= n]
    jobs += [('wit_again', n, a, 0) for n, a in ((0, 5), (20, 60), (60, 20), (70, 64), (64, 119))]
    # lengths that need more than a byte, two, four and five of the eight that tell them
    jobs += [('wit_end', n, b, 0) for b in (1, 1 << 7, (1 << 15) + 3, (1 << 23) - 1, 1 << 23, (1 << 25) + 77, 1 << 26, (1 << 26) * 5 + 9, 1 << 31, (1 << 32) + 1, 1 << 47, (1 << 54) + 3) for n in (0, 1, 55, 63)]
    jobs = sorted(set(jobs))

    def one(sub, j):
        fn, n, first, second = j
        what = f'{fn}: the digest of {n} bytes' + (f' given as {first}, {second} and {n - first - second}' if fn == 'wit_digest' and first != n else '')
        if fn == 'wit_again':
            what += f' after another message of {first} bytes'
        if fn == 'wit_end':
            what = f'{fn}: the end of a digest, of {n} bytes after {first} blocks,'
        try:
            g, run, atoms, got, more = digest(mod, fn, n, first, second)
        except dag.Refused as e:
            raise core.AnalysisError(f'{what}: {e}')
        want = reference(g, atoms[:n], 64 * first if fn == 'wit_end' else 0)
        bad = [k for k in range(20) if got[k] != want[k]]
        code = sub.read_code(mod, run.fns, fn, run.steps)
        sub.ob(not bad, f'{what} is their SHA-1, whatever they are', f'bytes {bad[:5]} of the digest are another function of the message; computed by {code}')
        sub.ob(not more, f'{what} takes 20 bytes', f'bytes at {more[:5]}')
        sub.sample(f'{what}: {run.steps} instructions, {len(g.nodes)} values')
    chk.parallel(one, jobs)


CHECKS = {'C35': (c35, 300)}


_numbered = None


def numbered(fn):
    mod = _numbered
    g = dag.Graph()
    run = dag.Run(mod, g)
    out = run.region()
    try:
        run.call(fn, [('p', out, 0)])
    except dag.Refused as e:
        return str(e), None, 0, None
    m = run.mem.get(out, {})
    return None, sorted(run.fns), run.steps, tuple(g.value(m[k]) if k in m else None for k in range(20))


def c36(chk):
    """Types of the kinds that can be written (numbers, strings, containers, entities, sequences, variants, constants, messages, the channels of a definition), in
    groups that are written in one form: the constants of the signature are propagated through the code that makes it; those of one group agree, those of two differ."""
    mod = core.compile_ir('signature', opt=False)
    fns = sorted(f for f in mod.fns if f.startswith('wit_sig_'))
    if len(fns) < 90:
        raise core.AnalysisError('witness functions are gone')
    global _numbered
    _numbered = mod
    with multiprocessing.get_context('fork').Pool(8) as pool:
        found = pool.map(numbered, fns, chunksize=4)
    seen, groups = {}, {}
    for f, (err, used, steps, d) in zip(fns, found):
        if err:
            raise core.AnalysisError(f'{f}: {err}')
        code = chk.read_code(mod, used, f, steps)
        chk.ob(None not in d, f'{f}: a signature is a constant of 20 bytes', f'{d}; {code}')
        group = f.split('_')[2]
        if group in groups:
            chk.ob(groups[group][1] == d, f'{f}: types written in one form have one signature', f'{f} and {groups[group][0]} are told apart; {code}')
        else:
            groups[group] = f, d
            chk.ob(d not in seen, f'{f}: types written in different forms have different signatures', f'{f} and {seen.get(d)} are not told apart; {code}')
        seen.setdefault(d, f)
    chk.sample(f'{len(fns)} types in {len(groups)} forms')


CHECKS['C36'] = (c36, 150)
