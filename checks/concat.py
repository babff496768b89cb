"""Texts joined from parts."""
from sa import bytesets as B, core, terms as T
from sa.terms import C
from .handshake import byte

X, Y, Z = 0, 1, 2
N = {'x': X, 'y': Y, 'z': Z}


def text(spec, lens):
    """'<' and the like are themselves; $x is all of x"""
    out, i = [], 0
    while i < len(spec):
        if spec[i] == '$':
            a = N[spec[i + 1]]
            out += [byte(k, a) for k in range(lens[a])]
            i += 2
        else:
            out.append(C(ord(spec[i]), 8))
            i += 1
    return out


# what is told: (which, text or None, also its length); the lengths of the parts
JOINED = {
    'all_none': ((), [(9, '')]), 'all_one': ((3,), [(9, '$x')]), 'all_two': ((3, 40), [(9, '$x$y'), (0, '$x'), (1, '$y')]),
    'all_mixed': ((1, 5), [(9, '<$x><$y>')]), 'all_same': ((2,), [(9, '$x-$x')]), 'all_consts': ((), [(9, 'abc')]), 'all_nul': ((2,), [(9, 'a\0b$x\0c')]), 'all_views': ((3, 2), [(9, '$x+$y')]),
    'view_none': ((), [(9, '')]), 'view_nothing': ((), [(9, '')]), 'view_one': ((3,), [(9, '$x'), (0, '$x')]), 'view_const': ((), [(9, 'abc')]), 'view_nbdl': ((3,), [(9, '$x')]),
    'view_ref': ((3,), [(9, '$x!')]), 'view_two': ((3, 5), [(9, '$x$y')]), 'view_mixed': ((1, 5), [(9, '<$x><$y>')]),
    'view_nested': ((2, 3), [(9, '($x)-$y$y($x)')]), 'view_copy': ((2, 3), [(9, '$x$y'), (9, '$y')]), 'view_moved': ((2, 3), [(9, '$x$y')]),
    'view_late': ((2, 2), [(9, 'a$y')]), 'view_into': ((2,), [(9, '.$x:..')]),
    'par_consts': ((), [(9, 'abcd')]), 'par_one': ((3,), [(9, '$x')]), 'par_paths': ((3, 2), [(9, '<$x/$y>$x')]),
}
# the text of the view against that of the other
SAME = {'one': ((3, 3), '$x', '$y'), 'two': ((1, 2, 3), '$x$y', '$z'), 'mid': ((1, 1, 5), '<$x>$y.', '$z'), 'nested': ((1, 2, 5), '$x-$y$x', '$z'), 'empty': ((2, 1, 3), '$x$y', '$z'), 'first': ((2, 1, 3), '$x$y', '$z'), 'none': ((0, 0, 3), '', '')}


def parts(t, op):
    if t[0] == 'op' and t[1] == op and t[2] == 1:
        return parts(t[3], op) | parts(t[4], op)
    return {t}


def pairs(facts):
    """the comparisons that hold, and groups of which one does not"""
    yes, some = set(), []
    for c, v in facts.items():
        if not v and c[0] == 'icmp':
            c, v = T.lnot(c), True
        if v:
            yes |= parts(c, 'and')
        else:
            some.append(parts(c, 'and'))
    for c in list(yes):
        if c[0] == 'icmp' and c[1] == 'ne':
            some.append({T.lnot(c)})
        o = parts(c, 'or')
        if len(o) > 1:
            some.append({T.lnot(x) for x in o})
    return yes, some


def c45(chk):
    """Parts of known length and unknown bytes: every byte of the text made of them, on every path; comparisons: where the texts are found the same every pair of bytes has been, where not one has not."""
    mod = core.compile_ir('concat', shims=('js',), nsa_args=('-heap',))

    def said(ex, t):
        out = []
        for e in t.events:
            if e.name == 'evt_r_len':
                out.append((e.args[0][1], e.args[1], []))
            elif e.name == 'evt_r_ch':
                out[-1][2].extend(ex.bytes_of(e.args[1], 1) or [e.args[1]])
        return out

    def go(sub, fn, lens=()):
        ex = sub.explore(mod, fn, unroll=200, bytes={byte(i, a): B.ALL for a, n in enumerate(lens) for i in range(n)} or None)
        sub.ob(bool(ex.traces), f'{fn}: completes')
        for t in ex.traces:
            if sub.ob(t.kind == 'ret', f'{fn}: completes', t.kind, trace=t):
                sub.ob(not t.evs('use_after_delete'), f'{fn}: nothing that was released is used', trace=t)
                sub.ob(len(t.evs('new')) == len(t.evs('delete')), f'{fn}: what was obtained is released', trace=t)
                yield ex, t

    def joined(sub, item):
        fn, (lens, want) = 'wit_' + item[0], item[1]
        for ex, t in go(sub, fn, lens):
            got = said(ex, t)
            sub.ob(len(got) == len(want), f'{fn}: {len(want)} texts', trace=t)
            for (w, n, xs), (which, spec) in zip(got, want):
                ts = text(spec, lens)
                what = 'the text is that of its parts, in order' if which == 9 else 'a part is as it was'
                sub.ob(w == which and n == C(len(ts), 64) and xs == ts, f'{fn}: {what}', f'{T.show(n)}: ' + ' '.join(T.show(x) for x in xs)[:300], trace=t)
            if 'all' not in fn:
                sizes = [e.args[1] for e in t.evs('evt_r_size')]
                ws = [C(len(text(s, lens)), 64) for w, s in want if w == 9] if fn != 'wit_view_into' else []
                sub.ob(sizes == ws, f'{fn}: its length is that of the text', ' '.join(map(T.show, sizes)), trace=t)

    def same(sub, item):
        fn, (lens, left, right) = 'wit_same_' + item[0], item[1]
        a, b = text(left, lens), text(right, lens)
        want = {T.icmp('eq', x, y) for x, y in zip(a, b)}
        for ex, t in go(sub, fn):
            says = [e.name for e in t.events if e.name in ('evt_r_same', 'evt_r_other')]
            yes, some = pairs(t.facts)
            if sub.ob(len(says) == 1, f'{fn}: one answer', trace=t):
                if says[0] == 'evt_r_same':
                    sub.ob(want <= yes, f'{fn}: texts that are called the same are', ' '.join(T.show(x) for x in want - yes), trace=t)
                else:
                    sub.ob(any(g <= want for g in some), f'{fn}: texts that are called different are', trace=t)
            sub.ob([e.args[1] for e in t.evs('evt_r_size')] == [C(len(a), 64)], f'{fn}: its length is that of the text', trace=t)

    for k in [*JOINED, *('same_' + s for s in SAME)]:
        if 'wit_' + k not in mod.fns:
            raise core.AnalysisError('witness functions are gone')
    chk.parallel(joined, list(JOINED.items()))
    chk.parallel(same, list(SAME.items()))


CHECKS = {'C45': (c45, 100)}
