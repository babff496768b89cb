"""The WebSocket handshake."""
import base64
import hashlib
from sa import bytesets as B, core, terms as T
from sa.explore import Explorer, State
from sa.terms import C

SHIMS = ('asio', 'sha')
GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
REQUEST = b'GET / HTTP/1.1\r\n'
START = b'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: '
END = b'\r\n\r\n'
AUTH = b'nbdl_auth='
QUIET = ('new', 'delete', 'evt_r_in')
NAMES = ['a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6']


def byte(i, arg=0):
    return ('load', ('arg', arg), i, 1, 0, ())


def text(b):
    return [C(x, 8) for x in b]


def words(t):
    """the events with texts folded into one: ('len', what, [bytes]), ('out', [bytes]), ('sha', ..), ('b64', ..), or the event"""
    out, left = [], 0
    for e in t.events:
        if e.name in QUIET or e.name == 'call':
            continue
        kind = {'evt_r_ch': 'len', 'evt_r_out': 'out', 'evt_r_sha_byte': 'sha', 'evt_r_b64_byte': 'b64', 'evt_r_delim': 'delim'}.get(e.name)
        if e.name == 'evt_r_len':
            out.append(('len', e.args[0][1], [], e.args[1], e))
        elif kind == 'len':
            out[-1][2].append(e.args[1])
        elif kind:
            if not out or out[-1][0] != kind:
                out.append((kind, None, [], None, e))
            out[-1][2].append(e.args[0])
        else:
            out.append((e.name, None, None, None, e))
    return out


class Sets:
    """sets of byte values, split as a reader of the bytes asks about them"""
    def __init__(self, masks):
        self.m = masks

    def ask(self, i, mask):
        """[(answer, sets)]"""
        m, out = self.m[i], []
        for v, x in ((True, m & mask), (False, m & ~mask)):
            if x:
                out.append((v, Sets(self.m[:i] + (x,) + self.m[i + 1:])))
        return out

    def match(self, at, chars):
        """bytes from at on are among chars[0], chars[1]...: [(answer, sets)]"""
        work, out = [(0, self)], []
        while work:
            k, s = work.pop()
            if k == len(chars):
                out.append((True, s))
                continue
            for v, s2 in s.ask(at + k, chars[k]):
                if v:
                    work.append((k + 1, s2))
                else:
                    out.append((False, s2))
        return out

    def find(self, at, mask):
        """[(the first position from at on whose byte is in mask, or the end; sets)]"""
        work, out = [(at, self)], []
        while work:
            k, s = work.pop()
            if k == len(s.m):
                out.append((k, s))
                continue
            for v, s2 in s.ask(k, mask):
                out.append((k, s2)) if v else work.append((k + 1, s2))
        return out


def one(c):
    return 1 << c


def nocase(name):
    return [one(c) | one(ord(chr(c).upper())) for c in name]


def header(s):
    """what a header line says: [(0 nothing / 1 key / 2 cookies, first, last)]"""
    n = len(s.m)
    for p, s1 in s.find(0, one(ord(':'))):
        if p == n:
            yield 0, 0, 0
            continue
        for kind, name in ((1, b'sec-websocket-key'), (2, b'cookies')):
            if p != len(name):
                continue
            for ok, s2 in s1.match(0, nocase(name)):
                if not ok:
                    yield 0, 0, 0
                    continue
                for v, s3 in s2.find(p + 1, B.ALL & ~one(32)):
                    yield kind, v, n
            break
        else:
            yield 0, 0, 0


def cookies(s, at=0):
    """the token: [(first, last)]; None when the text is not a list of cookies"""
    n = len(s.m)
    todo = s.match(at, [one(c) for c in AUTH]) if n - at >= len(AUTH) else [(False, s)]
    for mine, s1 in todo:
        first = at + len(AUTH) if mine else at
        for end, s2 in s1.find(first, one(ord(';'))):
            if mine and end > first or end >= n - 1:
                yield (first, end) if mine else (0, 0)
                continue
            for ok, s3 in s2.ask(end + 1, one(32)):
                if not ok:
                    yield None
                else:
                    yield from cookies(s3, end + 2)


class Run:
    def __init__(self, chk):
        self.chk, self.mod = chk, core.compile_ir('handshake', SHIMS)

    def go(self, fn, masks=None, arg=0):
        chk = self.chk
        ex = chk.explore(self.mod, fn, unroll=300, bytes=dict(masks or {}))
        chk.ob(bool(ex.traces), f'{fn}: completes')
        for t in ex.traces:
            if chk.ob(t.kind == 'ret', f'{fn}: completes', t.kind, trace=t, names=NAMES):
                chk.ob(not t.evs('use_after_delete'), f'{fn}: nothing that was released is used', trace=t, names=NAMES)
                yield t

    def true(self, fn, t, c):
        """c on this path: True, False or None"""
        ex, st = Explorer(self.mod, fn), State()
        st.facts = dict(t.facts)
        r = ex.simp(st, c)
        return True if r == T.TRUE else False if r == T.FALSE else None

    def failed(self, fn, t, arg):
        return self.true(fn, t, T.icmp('ne', ('arg', arg), C(0, 32)))

    def equal(self, fn, t, xs, ys):
        r = [self.true(fn, t, T.icmp('eq', x, y)) for x, y in zip(xs, ys)]
        return False if False in r else None if None in r else True


def c30(chk):
    """Every path through both sides of the handshake is followed, for texts of the listed lengths whose bytes are sets of values that branches narrow; the header, cookie, key or answer found on each path is compared with that of a reader which splits the same sets."""
    r = Run(chk)

    # a header line
    for n in (0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 22, 24):
        fn, kinds = f'wit_header_{n}', set()
        for t in r.go(fn, {byte(i): B.ALL for i in range(n)}):
            got = {w[1]: (w[2], w[3], w[4]) for w in words(t) if w[0] == 'len'}
            s = Sets(tuple(t.bytes.get(byte(i), B.ALL) for i in range(n)))
            for kind, first, last in header(s):
                kinds.add(kind)
                for what, name, old in ((1, 'key', b'old key'), (2, 'cookies', b'old cookies')):
                    want = [byte(i) for i in range(first, last)] if kind == what else text(old)
                    chk.ob(same(got.get(what, ([],))[0], want, s), f'{fn}: the {name} of the request {"is what the header says" if kind == what else "is left as it was"}',
                           f'{[T.show(x) for x in got.get(what, ([],))[0]]}', trace=t, loc=got[what][2].loc if what in got else None)
        chk.ob({1} <= kinds or n < 18, f'{fn}: there is a key', str(kinds))
        chk.ob({2} <= kinds or n < 8, f'{fn}: there are cookies', str(kinds))

    # the token among the cookies: every way to have up to two (short texts: any number of) semicolons
    def texts():
        for n in (0, 1, 2, 3, 4, 9, 10, 11, 12):
            yield n, None
        for n in (13, 14, 15, 16, 26):
            yield n, ()
            for p in range(n):
                if n < 26 or p in (0, 1, 9, 10, 11, 12, 13, 14, 15, 24, 25):
                    yield n, (p,)
            for p in range(n):
                for q in range(p + 1, n):
                    if (n == 16 and (p, q) in ((0, 2), (1, 3), (1, 4), (2, 4), (2, 14), (3, 15), (10, 12), (12, 14), (11, 15), (13, 15))) or \
                            (n == 26 and (p, q) in ((10, 22), (1, 13), (12, 24), (2, 14), (3, 15), (10, 12), (0, 14), (11, 23))):
                        yield n, (p, q)

    def token(sub, item):
        n, semis = item
        fn = f'wit_cookies_{n}'
        SEMI = one(ord(';'))
        masks = {byte(i): B.ALL if semis is None else SEMI if i in semis else B.ALL & ~SEMI for i in range(n)}
        rr = Run.__new__(Run)
        rr.chk, rr.mod = sub, r.mod
        for t in rr.go(fn, masks):
            got = [w for w in words(t) if w[0] == 'len']
            s = Sets(tuple(t.bytes.get(byte(i), masks[byte(i)]) for i in range(n)))
            for want in cookies(s):
                if want is not None:
                    sub.ob(len(got) == 1 and same(got[0][2], [byte(i) for i in range(*want)], s), f'{fn}: the token is the value of the first cookie of that name that has one',
                           f'{[T.show(x) for x in got[0][2]]} instead of bytes {want}' if got else 'nothing', trace=t, loc=got[0][4].loc if got else None)
    chk.parallel(token, list(texts()))

    # what is expected
    def once(fn, t, kind, who, e, rest=()):
        told = [w[4] for w in words(t) if w[0] == 'evt_r_told']
        chk.ob(len(told) == 1, f'{fn}: the outcome is told once', t.show(NAMES)[-300:], trace=t, names=NAMES, loc=told[0].loc if told else None)
        for x in told[:1]:
            chk.ob(x.args == (C(kind, 32), who, e), f'{fn}: the outcome told is what happened', f'{x.show(NAMES)} instead of outcome {kind}', trace=t, names=NAMES, loc=x.loc)
        return told[0] if told else None

    for n in (1, 4, 11):
        fn, kinds = f'wit_expect_{n}', set()
        for t in r.go(fn):
            io = [w[4] for w in words(t) if w[0] == 'evt_r_io']
            ln = [w for w in words(t) if w[0] == 'len' and w[1] == 4]
            chk.ob(len(io) == 1 and io[0].args[:2] == (C(1, 32), ('arg', 0)) and [w[3] for w in ln] == [C(n, 64)], f'{fn}: as much as is expected is read, once', trace=t, names=NAMES)
            bad, eq = r.failed(fn, t, 3), r.equal(fn, t, [byte(i, 1) for i in range(n)], [byte(i, 2) for i in range(n)])
            kind = 3 if bad else 1 if eq else 2
            if chk.ob(bad is not None and (bad or eq is not None), f'{fn}: it is known what arrived', t.show(NAMES)[-200:], trace=t, names=NAMES):
                kinds.add(kind)
                once(fn, t, kind, ('arg', 0), ('arg', 3) if bad else C(0, 32))
        chk.ob(kinds == {1, 2, 3}, f'{fn}: every outcome occurs', str(kinds))

    # reading the lines of a request
    KEY, COOK = b'sec-websocket-key: KK\r\n', b'Cookies: a=b\r\n'
    for name, steps in (('none', [(b'\r\n', 2)]), ('key', [(KEY, 23), (b'\r\n', 2)]), ('cookies', [(COOK, 14), (b'\r\n', 2)]),
                        ('other', [(b'Host: nbdl\r\n', 12), (b'Upgrade\r\n', 9), (b'\r\n', 2)]), ('short', [(b'a\r\n', 3), (b'\r\n', 2)]), ('both', [(KEY + COOK, 23), (b'\r\n', 14), (b'', 2)]),
                        ('bothr', [(COOK + KEY + b'\r\n', 14), (b'', 23), (b'', 2)])):
        fn, ends = 'wit_read_' + name, set()
        for t in r.go(fn):
            ws, k, ended = words(t), 0, None
            asks = [w for w in ws if w[0] == 'evt_r_until']
            shown = {5: [w for w in ws if w[0] == 'len' and w[1] == 5], 6: [w for w in ws if w[0] == 'len' and w[1] == 6]}
            for w in asks:
                chk.ob(w[4].args[0] == ('arg', 0), f'{fn}: lines are read from the socket', w[4].show(NAMES), trace=t, names=NAMES, loc=w[4].loc)
                chk.ob(T.is_c(w[4].args[2]) and w[4].args[2][1] >= 256, f'{fn}: a line of 256 bytes is accepted', w[4].show(NAMES), trace=t, names=NAMES, loc=w[4].loc)
            for w in [w for w in ws if w[0] == 'delim']:
                chk.ob(w[2] == text(b'\r\n'), f'{fn}: lines end with CR LF', str(w[2]), trace=t, names=NAMES, loc=w[4].loc)
            for k, (_, size) in enumerate(steps):
                bad = r.failed(fn, t, 4 + k)
                if bad or k + 1 == len(steps):
                    ended = (k, bad)
                    break
                # what came after the line is still there when the next line is asked for
                before, after = shown[5][k][2] if k < len(shown[5]) else None, shown[6][k][2] if k < len(shown[6]) else None
                chk.ob(before is not None and after == before[size:], f'{fn}: after line {k + 1} what follows it is kept', trace=t, names=NAMES)
            chk.ob(len(asks) == ended[0] + 1, f'{fn}: one line is read at a time until there is an empty one', f'{len(asks)} reads', trace=t, names=NAMES)
            ends.add(ended)
            if ended[1]:
                once(fn, t, 3, ('arg', 0), ('arg', 4 + ended[0]))
            else:
                once(fn, t, 1, ('arg', 0), C(0, 32))
                got = {w[1]: w[2] for w in ws if w[0] == 'len' and w[1] < 3}
                whole = b''.join(x for x, _ in steps)
                chk.ob(got.get(1) == text(b'KK' if KEY in whole else b''), f'{fn}: the key is told', str(got.get(1)), trace=t, names=NAMES)
                chk.ob(got.get(2) == text(b'a=b' if COOK in whole else b''), f'{fn}: the cookies are told', str(got.get(2)), trace=t, names=NAMES)
        chk.ob(len(ends) == len(steps) + 1, f'{fn}: every end occurs', str(ends))

    def written(fn, t, want, what):
        ws = words(t)
        out = [x for w in ws if w[0] == 'out' for x in w[2]]
        chk.ob(out == want, f'{fn}: {what}', f'{show(out)}'[:400], trace=t, names=NAMES)
        for w in ws:
            if w[0] == 'evt_r_from':
                base = T.split_ptr(w[4].args[0])[0]
                chk.ob(base[0] != 'alloca' or w[4].args[1] == C(0, 64), f'{fn}: what is written outlives the call that starts the write', w[4].show(NAMES), trace=t, names=NAMES)

    TOKEN = [('pure', 'token_byte', 'i8', (C(i, 32),)) for i in range(28)]
    DIGEST = [('pure', 'digest_byte', 'i8', (C(i, 32),)) for i in range(20)]

    def token_of(fn, t, key):
        ws = words(t)
        sha = [x for w in ws if w[0] == 'sha' for x in w[2]]
        chk.ob(len([w for w in ws if w[0] == 'evt_r_sha_init']) == 1 and sha == key + text(GUID), f'{fn}: the digest is that of the key and the identifier of RFC 6455',
               show(sha), trace=t, names=NAMES)
        chk.ob([x for w in ws if w[0] == 'b64' for x in w[2]] == DIGEST, f'{fn}: the accept token is the digest in base64', trace=t, names=NAMES)

    # the answer of a server
    for n, m in ((0, 0), (3, 15), (24, 16), (24, 2), (40, 16)):
        fn, kinds = f'wit_answer_{n}_{m}', set()
        for t in r.go(fn):
            bad = r.failed(fn, t, 2)
            kinds.add(bad)
            io = [w[4] for w in words(t) if w[0] == 'evt_r_io']
            chk.ob(len(io) == 1 and io[0].args[:2] == (C(0, 32), ('arg', 0)), f'{fn}: the answer is written once', trace=t, names=NAMES)
            token_of(fn, t, [byte(i, 1) for i in range(n)])
            if bad:
                once(fn, t, 3, ('arg', 0), ('arg', 2))
            else:
                written(fn, t, text(START) + TOKEN + text(END), 'the answer is the one of RFC 6455 with the accept token')
                once(fn, t, 1, ('arg', 0), C(0, 32))
                got = [w[2] for w in words(t) if w[0] == 'len' and w[1] == 3]
                chk.ob(got == [text(b'nbdl_auth=TOKEN;'[10:m].rstrip(b';'))], f'{fn}: the auth token is taken from the cookies', str(got), trace=t, names=NAMES)
        chk.ob(kinds == {True, False}, f'{fn}: both ends occur', str(kinds))

    # the whole handshake of a server
    fn, kinds = 'wit_server', set()
    me = ('arg', 1)
    for t in r.go(fn):
        ws = words(t)
        names = [w[0] for w in ws]
        line = r.equal(fn, t, [byte(i, 2) for i in range(16)], text(REQUEST))
        bad = [r.failed(fn, t, 3 + k) for k in range(4)]
        ln = [w[3] for w in ws if w[0] == 'len' and w[1] == 4]
        chk.ob(ln == [C(16, 64)], f'{fn}: the request line is read', str(ln), trace=t, names=NAMES)
        reads, writes = names.count('evt_r_until'), len([w for w in ws if w[0] == 'evt_r_io' and w[4].args[0] == C(0, 32)])
        if bad[0]:
            kind, want, step = 3, ('arg', 3), (0, 0)
        elif line is False:
            kind, want, step = 2, C(0, 32), (0, 0)
        elif bad[1]:
            kind, want, step = 3, ('arg', 4), (1, 0)
        elif bad[2]:
            kind, want, step = 3, ('arg', 5), (2, 0)
        elif bad[3]:
            kind, want, step = 3, ('arg', 6), (3, 1)
        else:
            kind, want, step = 1, C(0, 32), (3, 1)
            chk.ob(line is True, f'{fn}: only the request line expected is accepted', trace=t, names=NAMES)
            token_of(fn, t, text(b'KK'))
            written(fn, t, text(START) + TOKEN + text(END), 'the answer is the one of RFC 6455 with the accept token')
            got = [w[2] for w in ws if w[0] == 'len' and w[1] == 3]
            chk.ob(got == [text(b'T')], f'{fn}: the handler gets the auth token of the cookies', str(got), trace=t, names=NAMES)
        kinds.add((kind,) + step)
        chk.ob((reads, writes) == step, f'{fn}: the request is read as far as it is good, and answered once when it is complete', f'{reads} lines, {writes} answers', trace=t, names=NAMES)
        for w in ws:
            if w[0] in ('evt_r_io', 'evt_r_until'):
                who = w[4].args[1] if w[0] == 'evt_r_io' else w[4].args[0]
                chk.ob(who == ('arg', 0), f'{fn}: the socket of the endpoint is used', w[4].show(NAMES), trace=t, names=NAMES, loc=w[4].loc)
        once(fn, t, kind, me, want)
        chk.ob(names and [n for n in names if n != 'len'][-1] == 'evt_r_told', f'{fn}: nothing is done after the outcome is told', str(names[-3:]), trace=t, names=NAMES)
    chk.ob(len(kinds) == 6, f'{fn}: every outcome occurs', str(kinds))

    # a client
    for n, m in ((2, 3), (0, 20)):
        fn, kinds = f'wit_client_{n}_{m}', set()
        tok, org = [byte(i, 1) for i in range(n)], [byte(i, 2) for i in range(m)]
        for t in r.go(fn):
            ws = words(t)
            io = [w[4].args[0] for w in ws if w[0] == 'evt_r_io']
            bad = [r.failed(fn, t, 4), r.failed(fn, t, 5)]
            told = [w[4] for w in ws if w[0] == 'evt_r_told']
            me = told[0].args[1] if told else None
            out = [x for w in ws if w[0] == 'out' for x in w[2]]
            if bad[0]:
                kind, want = 3, ('arg', 4)
                chk.ob(io == [C(0, 32)], f'{fn}: nothing is read when the request cannot be written', str(io), trace=t, names=NAMES)
            else:
                chk.ob(io == [C(0, 32), C(1, 32)], f'{fn}: the request is written, then the answer is read', str(io), trace=t, names=NAMES)
                server_view(chk, fn, t, out, tok, org)
                written(fn, t, out, 'the request is written')
                ln = [w[3] for w in ws if w[0] == 'len' and w[1] == 4]
                answer = START + base64.b64encode(hashlib.sha1(key_of(out) + GUID).digest()) + END
                chk.ob(ln == [C(len(answer), 64)], f'{fn}: as much as the answer to this key has is read', str(ln), trace=t, names=NAMES)
                eq = r.equal(fn, t, [byte(i, 3) for i in range(len(answer))], text(answer))
                kind, want = (3, ('arg', 5)) if bad[1] else (2, C(0, 32)) if eq is False else (1, C(0, 32))
                if kind == 1:
                    chk.ob(eq is True, f'{fn}: only the answer to this key is accepted', trace=t, names=NAMES)
            kinds.add(kind)
            once(fn, t, kind, me, want)
        chk.ob(kinds == {1, 2, 3}, f'{fn}: every outcome occurs', str(kinds))

    fn = 'wit_request_again'
    for t in r.go(fn):
        got = {w[1]: w[2] for w in words(t) if w[0] == 'len'}
        chk.ob(got == {1: [byte(i, 0) for i in range(20)], 2: [byte(i, 1) for i in range(2)]}, f'{fn}: the origin and the token that a request is made of stay as they are', str(got), trace=t, names=NAMES)


def same(got, want, s):
    """equal terms, or the same constant over the sets"""
    return len(got) == len(want) and all(a == b or b[0] == 'load' and T.is_c(a) and s.m[b[2]] == one(a[1]) or T.is_c(b) and a[0] == 'load' and s.m[a[2]] == one(b[1])
                                         for a, b in zip(got, want))


def show(bs):
    return ''.join(chr(x[1]) if T.is_c(x) else '?' for x in bs)


def lines_of(out):
    lines, cur = [], []
    for x in out:
        cur.append(x)
        if cur[-2:] == text(b'\r\n'):
            lines.append(cur[:-2])
            cur = []
    return lines, cur


def key_of(out):
    for l in lines_of(out)[0]:
        s = show(l)
        if s.lower().startswith('sec-websocket-key:'):
            return s.split(':', 1)[1].strip().encode()
    return b''


def server_view(chk, fn, t, out, token, origin):
    """the request of a client as a server of this library reads it"""
    lines, rest = lines_of(out)
    chk.ob(bool(lines) and lines[0] + text(b'\r\n') == text(REQUEST), f'{fn}: the request line is the one a server expects', show(out[:20]), trace=t, names=NAMES)
    chk.ob(bool(lines) and lines[-1] == [] and not rest and lines.count([]) == 1, f'{fn}: the request ends with the empty line', show(out[-10:]), trace=t, names=NAMES)
    head = {}
    for l in lines[1:-1]:
        if C(58, 8) not in l:
            chk.ob(False, f'{fn}: every line is a header', show(l), trace=t, names=NAMES)
            continue
        p = l.index(C(58, 8))
        v = l[p + 1:]
        while v and v[0] == C(32, 8):
            v = v[1:]
        head[show(l[:p]).lower()] = v
    for k, v in (('host', None), ('upgrade', text(b'websocket')), ('connection', text(b'Upgrade')), ('sec-websocket-version', text(b'13')), ('origin', origin)):
        chk.ob(k in head and (v is None or head[k] == v), f'{fn}: the request has the header {k} of RFC 6455', show(head.get(k, [])), trace=t, names=NAMES)
    try:
        ok = len(base64.b64decode(show(head.get('sec-websocket-key', [])), validate=True)) == 16
    except ValueError:
        ok = False
    chk.ob(ok, f'{fn}: the key is 16 bytes in base64', show(head.get('sec-websocket-key', [])), trace=t, names=NAMES)
    c = head.get('cookies', [])
    chk.ob(c[:10] == text(AUTH) and c[10:10 + len(token)] == token and c[10 + len(token):] in ([], text(b';')), f'{fn}: the cookies carry the auth token where a server looks for it',
           show(c), trace=t, names=NAMES)


CHECKS = {'C30': (c30, 1500)}
