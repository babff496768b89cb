"""The session cookie."""
from sa import bytesets as B, core, terms as T
from sa.terms import C
from . import route
from .handshake import Sets, byte, one

NAME = b'NBDL_SESS'
TOKEN = B.mask_of(bytes(c for c in range(0x21, 0x7f) if c not in b';='))
VALUE = B.ALL & ~B.mask_of(b';')
KINDS = {'?': TOKEN, '+': TOKEN & ~B.mask_of(b'N'), '*': VALUE}
S = 'NBDL_SESS='
# ? a character of a name, + another than N, * one of a value; anything else is itself
VALUES = ['', '*', '**', '***', '="*"', '*=*', S, S + '*', 'a' + S + '*', '*' * 5]
SAME = [S + v for v in VALUES[:6]]
OTHERS = ['?=' + v for v in VALUES] + ['??=*', '???=', 'NBDL_SES=*', '?BDL_SESS=*', 'NBDL_SES?=*', 'NBD?_SESS=**', '?++++++++=*', '?+?+++++++=', '++++++++?=', '?NBDL_SESS=*', 'NBDL_SESS?=*',
          'XNBDL_SESS=', 'NBDL_SESSNBDL_SESS=*', 'NBDL_SESS.a=*', 'nbdl_sess=*', 'NBDL=*', '?++?+SESS=*', 'NB?L?SE?S=**']
BETWEEN = ['; ', ';', ';  ', ';\t', '; \t ']


def texts():
    out = {''}
    for a in SAME + OTHERS:
        for b in ('', ' ', '  ', '\t'):
            out.add(b + a)
        for end in (';', '; ', ' ;'[1:] + '  '):
            out.add(a + end)
    for a in OTHERS:
        for k, b in enumerate(SAME):
            if a.count('?') + (a + b).count('*') <= 6:
                s = BETWEEN[(k + len(a)) % 5]
                out |= {a + s + b, b + s + a, ' ' + a + ';' + b + s + 'x=*'}
    for s in BETWEEN:
        for a in OTHERS[1:4] + OTHERS[7:9]:
            out |= {a + s + S + '**', S + '**' + s + a, a + s + 'b=*' + s + S + '*', a + s + '?=' + s + 'NBDL_SESS?=*'}
    out |= {S + '*; ' + S + '*', 'a=*; ' + S + '**; b=*; ' + S + '*', S + '; ' + S + '*', '=*; ' + S + '*', 'a=*; =*; ' + S + '**',
            'a=1; b=2; c=*; d=4; e=5; f=*; ' + S + '***', 'a=1; b=2; c=3; d=*; e=5; f=6; g=*'}
    return sorted(out)


def session(p):
    """[(where the value is or None, sets)] for the texts of the pattern"""
    out, todo, at, pieces = [], [(0, None)], 0, []
    for piece in p.split(';'):
        lead = len(piece) - len(piece.lstrip(' \t'))
        if '=' in piece:
            eq = piece.index('=')
            pieces.append((at + lead, at + eq, at + len(piece)))
        at += len(piece) + 1
    todo = [(0, Sets(tuple(KINDS.get(c) or one(ord(c)) for c in p)))]
    while todo:
        k, s = todo.pop()
        if k == len(pieces):
            out.append((None, s))
            continue
        first, eq, end = pieces[k]
        if eq - first != len(NAME):
            todo.append((k + 1, s))
            continue
        for ok, s1 in s.match(first, [one(c) for c in NAME]):
            if ok:
                out.append(((eq + 1, end), s1))
            else:
                todo.append((k + 1, s1))
    return out


def c44(chk):
    """Every path through the reading of texts of cookies, in which the characters of names and values stand for every character that may be there, is followed; what is
    returned is compared with the place of the value in the texts of the path. For texts of up to five bytes of any kind, only that it is a part of the text."""
    r = route.Run(chk, 'cookie')
    for f in ('wit_session',):
        if f not in r.mod.fns:
            raise core.AnalysisError('witness functions are gone')

    def inside(sub, p, t, n):
        e = t.evs('evt_r_view')
        read = {a[2] for c in t.facts for a in B.Tables(r.mod).atoms_of(c) or () if a[0] == 'load' and a[1] == ('arg', 0)}
        sub.ob(all(0 <= k < n for k in read), f'text {p!r}: nothing beside the text is read', f'{sorted(read)}', trace=t)
        sub.ob(len(e) == 1, f'text {p!r}: one value is returned', trace=t)
        if not e or e[0].args[1] == C(0, 64):
            return None
        at, size = e[0].args
        b, k = T.split_ptr(at)[:2]
        ok = sub.ob(size[0] == 'c' and b == ('arg', 0) and isinstance(k, int) and 0 <= k and k + size[1] <= n, f'text {p!r}: the value is a part of the text', f'{T.show(at)} {T.show(size)}', trace=t)
        return (k, k + size[1]) if ok else None

    def read(sub, p):
        ms = [KINDS.get(c) or one(ord(c)) for c in p]
        for t in r.go(sub, 'wit_session', {byte(i): m for i, m in enumerate(ms)}, {1: C(len(p), 64)}):
            got = inside(sub, p, t, len(p))
            s = [t.bytes.get(byte(i), m) for i, m in enumerate(ms)]
            for want, s1 in session(p):
                now = {byte(i): m & s[i] for i, m in enumerate(s1.m)}
                if not all(now.values()) or not r.possible('wit_session', t, now):
                    continue
                want = want if want and want[0] < want[1] else None
                sub.ob(got == want, f'text {p!r}: the value is that of the first {NAME.decode()}, or nothing', f'{got} instead of {want}', trace=t)
    chk.parallel(read, texts())

    def other(sub, n):
        for t in r.go(sub, 'wit_session', {byte(i): B.ALL for i in range(n)}, {1: C(n, 64)}):
            inside(sub, '?' * n, t, n)
    chk.parallel(other, range(6))


CHECKS = {'C44': (c44, 3000)}
