"""Servers and clients (app/): who is accepted, told and heard."""
from sa import core, terms as T
from sa.terms import C

A = lambda i: ('arg', i)  # noqa: E731
NEW = lambda n: ('res', 'evt_r_new_stream', (), n)  # noqa: E731
LOUD = {'acceptor', 'refused', 'fails', 'broken', 'new_stream', 'open', 'sent', 'incoming', 'reads', 'unreadable', 'applied', 'failed', 'end', 'kept', 'lookup', 'greet'}


def go(chk, mod, fn):
    ts = chk.explore(mod, fn, unroll=20).traces
    chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
    chk.sample(f'{fn}: {ts[-1].show()}'[:300])
    return [(t, phases(t)) for t in ts if t.kind == 'ret']


def phases(t):
    """what happens, in the parts that the witness marks; constants as numbers"""
    parts, k = {0: []}, 0
    for e in t.events:
        name = e.name.split('_r_')[-1]
        args = tuple(a[1] if a[0] == 'c' else a for a in e.args)
        if name == 'phase':
            k = args[0]
            parts[k] = []
        elif name in LOUD:
            parts[k].append((name,) + args)
    return parts


def pick(part, *names):
    return [e for e in part if e[0] in names]


def word(s):
    return int.from_bytes(s.encode(), 'little')


def sent(who, kind, x):
    return ('sent', who, ('pure', 'app_text', 'i64', (C(kind, 64), x)), 8)


def told(chk, fn, t, part, streams, kind, x, way=1):
    """each of the streams is sent the text of the message once; who cannot be written to has one error"""
    chk.ob(sorted(map(repr, pick(part, 'sent'))) == sorted(repr(sent(s, kind + 16 * way, x)) for s in streams), f'{fn}: a message goes as its text, once, to each connection that is open, and to no other', t.show(), trace=t)
    chk.ob(pick(part, 'kept') == [('kept', x)], f'{fn}: the message sent stays as it was with who sends it', t.show(), trace=t)
    broken = [e[2] for e in pick(part, 'broken') if e[1] == 25]
    chk.ob([e[1] for e in pick(part, 'failed')] == broken, f'{fn}: a failure to write is an error of that connection once', t.show(), trace=t)
    chk.ob(not pick(part, 'applied', 'open'), f'{fn}: sending does nothing else', t.show(), trace=t)


def heard(chk, fn, t, part, who, context, before, way):
    """one turn of reading"""
    texts = pick(part, 'incoming')
    reads = pick(part, 'reads')
    chk.ob(len([e for e in pick(part, 'fails') if e[1:] == (24, who)]) == 1, f'{fn}: a text is read once from the connection', t.show(), trace=t)
    good = bool(reads) and reads[0][1] in (2, 3)
    chk.ob(all(e[2] == way for e in reads), f'{fn}: it is read as what a server hears from below or a client from above', t.show(), trace=t)
    if good:
        ap = pick(part, 'applied')
        ok = len(ap) == 1 and ap[0][1] == context and ap[0][2] == reads[0][1] and ap[0][3] == ('pure', 'app_value', 'i64', (('res', 'evt_r_incoming', (), before),))
        chk.ob(ok, f'{fn}: a message received is applied to the context once, as it was sent', t.show(), trace=t)
        chk.ob(not pick(part, 'failed') and len(pick(part, 'end')) == 1, f'{fn}: a message received is no error, and its reading ends once', t.show(), trace=t)
    else:
        chk.ob(not pick(part, 'applied'), f'{fn}: what is no message changes nothing', t.show(), trace=t)
        chk.ob([e[1] for e in pick(part, 'failed')] == [who], f'{fn}: what is no message, or cannot be read, is an error of that connection exactly once', t.show(), trace=t)
    chk.ob(len(texts) <= 1 and not pick(part, 'sent', 'open'), f'{fn}: reading does nothing else', t.show(), trace=t)


def c48(chk):
    """The server and client of app/ with every outcome of each step (acceptor, accept, request, upgrade, read, write, resolve, connect, handshake) and every kind of text: what is asked of the acceptor,
    which connections are opened, told and closed, what is applied to the context, and how often each error is reported, on every path."""
    mod = core.compile_ir('app', shims=('app',), nsa_args=('-heap',))
    both = set()
    for t, p in go(chk, mod, 'wit_listen'):
        acts = pick(p[0], 'acceptor')
        refused = pick(p[0], 'refused')
        chk.ob([e[1] for e in acts] == list(range(len(acts))) and len(acts) == (refused[0][1] + 1 if refused else 4), 'wit_listen: it is opened, made reusable, bound and listens, in this order, until one fails', t.show(), trace=t)
        chk.ob(len(refused) <= 1 and all(e[2] == 1 for e in acts if e[1] == 1) and all(not isinstance(e[2], int) and T.show(e[2]) == 'zext64(arg0)' for e in acts if e[1] == 2), 'wit_listen: on the port asked for', t.show(), trace=t)
        both.add(bool(refused))
        if refused:
            chk.ob(not p[1], 'wit_listen: nothing is accepted where it cannot listen', t.show(), trace=t)
        else:
            turns(chk, 'wit_listen', t, p[1])
    chk.ob(both == {True, False}, 'wit_listen: it may fail or not', str(both))
    for t, p in go(chk, mod, 'wit_accept'):
        streams = turns(chk, 'wit_accept', t, p[1])
        told(chk, 'wit_accept', t, p[2], streams, 2, A(1))
    for name, gone, kind in (('all', (), 2), ('first', (0,), 2), ('mid', (1,), 3), ('last', (2,), 2), ('twice', (1,), 2), ('one', (0, 2), 2), ('none', (0, 1, 2), 2), ('again', (0,), 2), ('five', (), 2)):
        fn = f'wit_tell_{name}'
        for t, p in go(chk, mod, fn):
            streams = [NEW(i) for i in range(3) if i not in gone]
            chk.ob(len(pick(p[0], 'open')) == 3, f'{fn}: three are accepted', t.show(), trace=t)
            streams += [NEW(3)] if name == 'again' else [NEW(3), NEW(4)] if name == 'five' else []
            if name == 'all':
                told(chk, fn, t, p[1], streams, 2, A(1))
                told(chk, fn, t, p[2], streams, 3, A(2))
            else:
                chk.ob(not pick(p[1], 'sent', 'failed', 'applied'), f'{fn}: closing does nothing else', t.show(), trace=t)
                told(chk, fn, t, p[2], streams, kind, A(1))
    for fn, who in (('wit_read', (0,)), ('wit_read_more', (0, 0)), ('wit_read_two', (0, 1, 0)), ('wit_told', (0, 0)), ('wit_told_more', (0, 0))):
        seen = set()
        for t, p in go(chk, mod, fn):
            n = 0
            seen |= {e[1] for e in pick(p[1], 'reads')} | {'broken' for e in pick(p[1], 'broken')} | ({'thrown'} if pick(p[1], 'unreadable') else set())
            for i, w in enumerate(who):
                heard(chk, fn, t, p[i + 1], NEW(w), A(0), n, int('told' in fn))
                n += len(pick(p[i + 1], 'incoming'))
        chk.ob(seen == {0, 1, 2, 3, 'broken', 'thrown'}, f'{fn}: every kind of text is read', str(seen))
    for t, p in go(chk, mod, 'wit_early'):
        told(chk, 'wit_early', t, p[1], [], 2, A(1))
    for t, p in go(chk, mod, 'wit_connect'):
        asked, broken = [e[1] for e in pick(p[1], 'fails')], [e[1] for e in pick(p[1], 'broken')]
        chk.ob(len(broken) <= 1 and asked == [k for k in (30, 31, 32) if not broken or k <= broken[0]], 'wit_connect: the address is looked up, connected to and greeted, until one fails', t.show(), trace=t)
        chk.ob(len(pick(p[1], 'open')) == 1 and len(pick(p[1], 'failed')) == len(broken), 'wit_connect: a failure to connect is an error once', t.show(), trace=t)
        chk.ob(len([e for e in pick(p[1], 'end') if e[1:] == (0, 0)]) == (0 if broken else 1) and not pick(p[1], 'sent', 'applied'), 'wit_connect: it is opened once where nothing fails', t.show(), trace=t)
    for n, (host, port) in enumerate((('h', '80'), ('ab.cd', '8080'), ('ab', '80'), ('a.b.c.d', '1'), ('127.0.0', '65535'), ('a-b', 'http'))):
        fn = f'wit_address_{n}'
        for t, p in go(chk, mod, fn):
            h, q = word(host), word(port)
            chk.ob(pick(p[0], 'lookup') == [('lookup', h, len(host), q, len(port))], f'{fn}: the host and port of the address are looked up', t.show(), trace=t)
            chk.ob(pick(p[0], 'greet') == [('greet', NEW(0), h, len(host), word('/'))], f'{fn}: the host is greeted by its name', t.show(), trace=t)
    for t, p in go(chk, mod, 'wit_ask'):
        told(chk, 'wit_ask', t, p[1], [NEW(0)], 2, A(1), 0)
        told(chk, 'wit_ask', t, p[2], [NEW(0)], 3, A(2), 0)


def turns(chk, fn, t, part):
    """two turns of accepting: the streams opened"""
    cut, cur = [], None
    for e in part:
        if e[0] == 'new_stream':
            cur = []
            cut.append(cur)
        if cur is not None:
            cur.append(e)
    chk.ob(len(cut) == 2, f'{fn}: it goes on accepting, whatever becomes of one', t.show(), trace=t)
    out = []
    for i, c in enumerate(cut):
        who = NEW(i)
        asked = {e[1] for e in pick(c, 'fails') if e[2] == who}
        good = asked == {20, 21, 22, 23} and not pick(c, 'broken')
        chk.ob([e[1] for e in pick(c, 'open')] == ([who] if good else []), f'{fn}: who is accepted, asked for an upgrade and has it is connected once, and nobody else', t.show(), trace=t)
        chk.ob(bool(pick(c, 'broken')) or good, f'{fn}: it is asked of everyone who is accepted', t.show(), trace=t)
        chk.ob([e for e in pick(c, 'end') if e[1] >= 10] == [('end', 10 + i, 0)], f'{fn}: each turn of accepting ends once, and is no error', t.show(), trace=t)
        chk.ob(not pick(c, 'sent', 'applied', 'failed'), f'{fn}: accepting does nothing else', t.show(), trace=t)
        out += [who] * good
    return out


CHECKS = {'C48': (c48, 400)}
