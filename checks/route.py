"""Routes: text <-> variant."""
from sa import bytesets as B, core, terms as T
from sa.explore import Explorer, State
from sa.terms import C
from .handshake import Sets, byte, one, same, text

SLASH, DIGITS = one(ord('/')), B.mask_of(range(48, 58))
KINDS = {'?': B.ALL, '*': B.ALL & ~SLASH, '%': DIGITS, '&': B.ALL & ~SLASH & ~DIGITS}
U64, U16, INT = (1 << 64) - 1, (1 << 16) - 1, (1 << 31) - 1
# the routes of wit/route.cpp: what is told of each; members: 's' text, or the greatest number
ROUTES = {b'': (1, []), b'f': (2, [U64]), b'foo': (3, [U64, 's']), b'fo': (4, ['s', 's', U64]), b'foo-bar': (5, []), b'Bar': (6, ['s']),
          b'num': (7, [U16]), b'sig': (8, [INT]), b'all': (9, ['s'] * 9)}

# ? any byte, * any but a slash, % a digit, & neither; anything else is itself
TEXTS = ['', '?', '??', '???', '????', '?????'] + ['/' + '*' * n for n in range(1, 9)] + [
    '/f?', '/f??', '/f???', '/f????', '/f/????', '/f/%%%%%%', '/f/0%%', '/f/%%?%', '/f/%/?', '/f/%/*/', '/f/%/??', '/?/5', '/&&&/5/a', '/f//5', '//f/5', '?f/5',
    '/foo/?', '/foo/??/', '/foo/%%/*', '/foo/??/a', '/foo/5/???', '/foo/%/**/', '/foo/%/*/?', '/foo/%/*/*/*', '/foo/%%%/****?',
    '/fo/*/*/%', '/fo/*/*/%%/', '/fo/a/b/??', '/fo/??/b/5', '/fo/a/**/??', '/fo/***/******/%%%', '/fo/*/*', '/fo/*/*/%/%', '/fo/*/*/5?',
    '/foo-bar', '/foo-bar?', '/foo-bar??', '/foo-bar/*', '/foo?bar', '/foo-ba?', '/foo-ba', '/foo-barr', '/fOo-bar',
    '/Bar/?', '/Bar/??', '/Bar/???', '/Bar/**************', '/Bar/**********************', '/Bar', '/Bar/', '/bar/*', '/Bar/*/*', '/Bar/*//',
    '/num/%', '/num/%%%%', '/num/6553?', '/num/655?5', '/num/65?36', '/num/6?536', '/num/?5536', '/num/13107?', '/num/1310?2', '/num/00065%', '/num/100000%',
    '/sig/%%%', '/sig/214748364?', '/sig/21474?3648', '/sig/429496729?', '/sig/42949?7296', '/sig/1844674407370955161?', '/sig/922337203685477580?', '/sig/-%', '/sig/+%',
    '/f/1844674407370955161?', '/f/1844674407370955?616', '/f/?8446744073709551616', '/f/1?446744073709551615', '/f/18446744073709551?15', '/f/18446744073709551617',
    '/f/3689348814741910323?', '/f/?6893488147419103232', '/f/1000000000000000000000000000?', '/f/9223372036854775?08', '/f/000000000000000000000000000?', '/f/00000000000000000000000%%',
    '/all/*/*/*/*/*/*/*/*/*', '/all/*/*/*/*/*/*/*/*/*?', '/all/*/*/*/*/*/*/*/*/?', '/all/*/*/*/*/*/*/*/*', '/all/*/*/*/*/*/*/*/*/', '/all/*/*/*/*/*/*/*/*/*/*', '/all/*/*/*//*/*/*/*/*',
    '/all/*/*/*/*/*/*/*/*/*/*/*', '/f/*/*/*/*/*/*/*/*/*']


def masks_of(p):
    return tuple(KINDS.get(c) or one(ord(c)) for c in p)


def number(s, first, last, most):
    """[(the bytes are a number from 1 to most, sets)]"""
    todo = [(first, s)]
    while todo:
        k, s1 = todo.pop()
        if k < last:
            for ok, s2 in s1.ask(k, DIGITS):
                if ok:
                    todo.append((k + 1, s2))
                else:
                    yield False, s2
            continue
        # none of them, or the first that is not zero
        zero = [(first, s1)]
        while zero:
            k, s2 = zero.pop()
            if k == last:
                yield False, s2
                continue
            for z, s3 in s2.ask(k, one(48)):
                if z:
                    zero.append((k + 1, s3))
                    continue
                free = [i for i in range(first, last) if len(B.members(s3.m[i])) > 1]
                lo = hi = 0
                for i in range(first, last):
                    m = B.members(s3.m[i])
                    lo, hi = lo * 10 + m[0] - 48, hi * 10 + m[-1] - 48
                if lo > most or hi <= most:
                    yield hi <= most, s3
                    continue
                if len(free) != 1:
                    raise core.AnalysisError(f'numbers from {lo} to {hi}')
                i, = free
                ok = B.mask_of(v for v in B.members(s3.m[i]) if lo + (v - B.members(s3.m[i])[0]) * 10 ** (last - 1 - i) <= most)
                yield from s3.ask(i, ok)


def route(s):
    """what the text says: [(route or 0, [(first, last)], sets)]"""
    n = len(s.m)
    if n == 0:
        return [(0, [], s)]
    out = []
    for ok, s1 in s.ask(0, SLASH):
        if not ok:
            out.append((0, [], s1))
        elif n == 1:
            out.append((1, [], s1))
        else:
            out += parts(s1, 1, [])
    return out


def parts(s, at, have):
    """from just after a slash"""
    out = []
    for end, s1 in s.find(at, SLASH):
        if end == at:
            # nothing between two slashes; a slash at the end says nothing
            out += [(0, [], s1)] if end < len(s.m) else named(s1, have) if len(have) < 10 else []
        elif end == len(s.m):
            out += named(s1, have + [(at, end)])
        else:
            out += parts(s1, end + 1, have + [(at, end)])
    return out


def named(s, have):
    todo, out = [(0, s)], []
    names = list(ROUTES)
    while todo:
        k, s1 = todo.pop()
        if k == len(names):
            out.append((0, [], s1))
            continue
        name = names[k]
        if have[0][1] - have[0][0] != len(name):
            todo.append((k + 1, s1))
            continue
        for ok, s2 in s1.match(have[0][0], [one(c) for c in name]):
            if not ok:
                todo.append((k + 1, s2))
            else:
                out += members(s2, *ROUTES[name], have[1:])
    return out


def members(s, what, kinds, have):
    if len(kinds) != len(have):
        return [(0, [], s)]
    todo, out = [(0, s)], []
    while todo:
        k, s1 = todo.pop()
        if k == len(have):
            out.append((what, have, s1))
        elif kinds[k] == 's':
            todo.append((k + 1, s1))
        else:
            for ok, s2 in number(s1, *have[k], kinds[k]):
                if ok:
                    todo.append((k + 1, s2))
                else:
                    out.append((0, [], s2))
    return out


def told(evs):
    """(what, [members]): a member is ('num', term) or ('text', which, [bytes])"""
    what, ms = None, []
    for e in evs:
        if e.name == 'evt_r_is':
            what, ms = e.args[0], []
        elif e.name == 'evt_r_num':
            ms.append(('num', e.args[0]))
        elif e.name == 'evt_r_len':
            ms.append(('text', e.args[0], []))
        elif e.name == 'evt_r_ch':
            ms[-1][2].append(e.args[1])
    return what, ms


class Run:
    def __init__(self, chk, name='route'):
        self.chk, self.mod = chk, core.compile_ir(name)

    def go(self, chk, fn, masks=None, args=None):
        ex = chk.explore(self.mod, fn, unroll=300, bytes=dict(masks or {}), args=args)
        chk.ob(bool(ex.traces), f'{fn}: completes')
        for t in ex.traces:
            if chk.ob(t.kind == 'ret', f'{fn}: completes', t.kind, trace=t):
                chk.ob(not t.evs('use_after_delete'), f'{fn}: nothing that was released is used', trace=t)
                yield t

    def given(self, fn, masks):
        """an explorer and a state in which the bytes are among masks"""
        ex, st = Explorer(self.mod, fn, bytes=masks), State()
        st.facts = {}
        st.counts = {('bytes', a): m for a, m in masks.items()}
        return ex, st

    def possible(self, fn, t, masks):
        ex, st = self.given(fn, masks)
        return not any(v and ex.simp(st, c) == T.FALSE or not v and ex.simp(st, c) == T.TRUE for c, v in t.facts.items())

    def number(self, fn, masks, got, want):
        """the term is the decimal number of these bytes"""
        ex, st = self.given(fn, masks)
        n, x = len(want), ex.linear(st, got, 64)
        y = (0, {})
        for i, p in enumerate(want):
            y = B.plus(y, (0, {p: {v: (v - 48) * 10 ** (n - 1 - i) for v in B.members(masks[p])}}))
        return x is not None and self.nothing(B.plus(x, y, -1))

    def nothing(self, d):
        """zero, modulo 2^64, for all bytes"""
        c = d[0]
        for f in d[1].values():
            vs = {v % (1 << 64) for v in f.values()}
            if len(vs) != 1:
                return False
            c += vs.pop()
        return c % (1 << 64) == 0

    def value(self, fn, masks, t):
        ex, st = self.given(fn, masks)
        return ex.simp(st, t)


def c37(chk):
    """Every path through the reading of a route is followed, for texts in which any byte, any byte but a slash or any digit may stand at each place (sets of values that branches narrow; numbers are sums of functions of single bytes); the route found on each path is compared with that of a reader which splits the same sets. The text written for a value is compared byte by byte."""
    r = Run(chk)

    # a text
    def read(sub, p):
        n, ms = len(p), masks_of(p)
        fn, masks = 'wit_from', {byte(i): m for i, m in enumerate(ms)}
        for t in r.go(sub, fn, masks, {1: C(n, 64)}):
            s = Sets(tuple(t.bytes.get(byte(i), ms[i]) for i in range(n)))
            what, got = told(t.events)
            for want, have, s1 in route(s):
                now = {byte(i): m for i, m in enumerate(s1.m)}
                if not r.possible(fn, t, now):
                    continue
                sub.ob(what is not None and r.value(fn, now, what) == C(want, 32), f'text {p!r}: the route is the one the text says, or none',
                       f'{what and T.show(r.value(fn, now, what))} instead of {want}', trace=t)
                if not want or r.value(fn, now, what) != C(want, 32):
                    continue
                texts = [x[2] for x in got if x[0] == 'text']
                nums = [x[1] for x in got if x[0] == 'num']
                kinds = next(k for w, k in ROUTES.values() if w == want)
                want_t = [[byte(i) for i in range(*h)] for h, k in zip(have, kinds) if k == 's']
                want_n = [[byte(i) for i in range(*h)] for h, k in zip(have, kinds) if k != 's']
                sub.ob(len(texts) == len(want_t) and all(same(a, b, s1) for a, b in zip(texts, want_t)), f'text {p!r}: every text of the route is the part at its place', trace=t)
                sub.ob(len(nums) == len(want_n) and all(r.number(fn, now, a, b) for a, b in zip(nums, want_n)), f'text {p!r}: every number of the route is the number at its place',
                       ' '.join(T.show(x) for x in nums), trace=t)
    chk.parallel(read, TEXTS)


    # the text of a value
    def says(fn, t, e, want, masks, what):
        """want: bytes, ints or atoms; a function of byte 0"""
        got = []
        for x in t.events:
            if x.name == 'evt_r_len':
                got.append((x.args[0], x.args[1], []))
            elif x.name == 'evt_r_ch':
                got[-1][2].append(x.args[1])
        got = [g for g in got if g[0] == C(e, 32)]
        chk.ob(len(got) == 1, f'{fn}: {what}', 'no text', trace=t)
        for _, n, xs in got[:1]:
            chk.ob(n == C(len(want), 64) and len(xs) == len(want) and all(a == b for a, b in zip(xs, want)), f'{fn}: {what}',
                   ' '.join(T.show(x) for x in xs)[:300], trace=t)

    for name, base in (('f_0', 0), ('f_900', 900), ('f_31', (1 << 31) - 128), ('f_32', (1 << 32) - 128), ('f_63', (1 << 63) - 128), ('f_64', U64 - 255), ('num', 65280), ('sig', 0x7fffff00)):
        fn, lens = 'wit_to_' + name, {}
        for v in range(256):
            lens.setdefault(len(str(base + v)), []).append(v)
        head = b'/' + name.split('_')[0].encode() + b'/'
        for n, vs in lens.items():
            for t in r.go(chk, fn, {byte(0): B.mask_of(vs)}):
                m = t.bytes.get(byte(0), B.mask_of(vs))
                chs = [e.args[1] for e in t.events if e.name == 'evt_r_ch']
                ln = [e.args[1] for e in t.events if e.name == 'evt_r_len']
                ok = ln == [C(len(head) + n, 64)] and len(chs) == len(head) + n
                if ok:
                    tb = B.Tables(r.mod)
                    for v in B.members(m):
                        want = head + str(base + v).encode()
                        for c, w in zip(chs, want):
                            at = tb.atoms_of(c)
                            ok = ok and at is not None and at <= {byte(0)} and tb.value(c, {byte(0): v}) == w
                chk.ob(ok, f'{fn}: the text is the name of the route and the number', ' '.join(T.show(x) for x in chs)[:300], trace=t)
    x3 = [byte(i) for i in range(3)]
    for fn, want in (('root', text(b'/')), ('foobar', text(b'/foo-bar')), ('bar', text(b'/Bar/') + x3), ('bar_long', text(b'/Bar/') + [byte(i) for i in range(60)]),
                     ('bar_gone', text(b'/Bar/') + [byte(i) for i in range(60)]), ('fo', text(b'/fo/') + x3 + text(b'/') + [byte(i, 1) for i in range(20)] + text(b'/57')),
                     ('foo', text(b'/foo/7/') + x3), ('all', text(b'/all') + [c for i in range(9) for c in (C(47, 8), byte(i))])):
        fn = 'wit_to_' + fn
        for t in r.go(chk, fn, {byte(i, a): B.ALL for i in range(60) for a in (0, 1)}):
            says(fn, t, 9, want, None, 'the text is the name of the route and its members, a slash before each')
            if 'bar' in fn and 'gone' not in fn and 'foobar' not in fn:
                says(fn, t, 0, want[5:], None, 'the value is left as it was')

    # there and back; a variant; asking for a route
    free = {byte(i, a): KINDS['*'] for i in range(5) for a in (0, 1)}
    y5 = [byte(i, 1) for i in range(5)]
    for fn, want, num, txt in (('back_fo', 4, [C(57, 64)], [x3, y5]), ('back_foobar', 5, [], []), ('back_root', 1, [], []),
                               ('var_bar', 6, [], [x3]), ('var_f', 2, [('arg', 0)], []), ('var_root', 1, [], []),
                               ('set_f', 2, [('arg', 0)], []), ('set_bar', 6, [], [x3]), ('set_root', 1, [], []), ('set_foobar', 5, [], [])):
        f2 = 'wit_' + fn
        for t in r.go(chk, f2, free):
            what, got = told(t.events)
            chk.ob(len(t.evs('evt_r_is')) == 1 and what == C(want, 32) and [x[1] for x in got if x[0] == 'num'] == num and [x[2] for x in got if x[0] == 'text'] == txt,
                   f'{f2}: ' + {'back': 'what is read from the text of a value is that value', 'var': 'the variant holds the route it is made of', 'set': 'the route asked for is the payload'}[fn.split('_')[0]],
                   t.show()[-300:], trace=t)
            if fn.startswith('set'):
                sent = t.evs('evt_r_sent')
                to = ('arg', 0) if fn in ('set_root', 'set_foobar') else ('arg', 1)
                chk.ob(len(sent) == 1 and sent[0].args == (to, C(7, 32)), f'{f2}: one upstream update of the path of the route is sent', t.show()[-300:], trace=t)


CHECKS = {'C37': (c37, 1500)}
