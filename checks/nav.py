"""The address of a page and the route in its state."""
from sa import bytesets as B, core, terms as T
from sa.terms import C
from .handshake import byte, one

NAME = B.ALL & ~one(ord('/')) & ~one(0)
# * any character but a slash (and the end of a text); anything else is itself
PLACES = ['', '/', '//', '*', '***', '/*', '/***', '/****', '/foo', '/foo/', '/foo/*', '/foo/**', '/foo/*********', '/foo/**/', '/foo/*/*', '/foo//*', '/f*o/', '/two/5/*', '/two/305/**', '/two/0/*', '/two/a/*',
          '/two/5', '/two/*', '/two/5/**/', '/two/5/*/*', '/two/18446744073', '/Foo/*', '/fooo/*', 'foo/*', '?/foo/*']
SENT = [0, 1, 2, 5, 11]


def terms_of(p):
    return [byte(i) if c == '*' else C(ord(c), 8) for i, c in enumerate(p)]


def masks_of(p):
    return {byte(i): NAME if c == '*' else one(ord(c)) for i, c in enumerate(p)}


def route(text):
    """what is told of the route that the text (a list of terms) names"""
    slash = C(ord('/'), 8)
    if not text or text[0] != slash:
        return [('is', 0)]
    if len(text) == 1:
        return [('is', 1)]
    parts = [[]]
    for x in text[1:]:
        if x == slash:
            parts.append([])
        else:
            parts[-1].append(x)
    if not parts[-1] and len(parts) > 1:
        parts.pop()
    word = [x[1] if x[0] == 'c' else None for x in parts[0]]
    if not all(parts):
        return [('is', 0)]
    if word == list(b'foo') and len(parts) == 2:
        return [('is', 2), ('text', 0, parts[1])]
    if word == list(b'two') and len(parts) == 3 and all(x[0] == 'c' and 48 <= x[1] < 58 for x in parts[1]):
        n = int(bytes(x[1] for x in parts[1]))
        if n:
            return [('is', 3), ('num', n), ('text', 0, parts[2])]
    return [('is', 0)]


def const(s):
    return [C(ord(c), 8) for c in s]


def steps_of(fn, x):
    """(what happens, the address that is there then), for every step; x: the text given"""
    foo, two, root = const('/foo/') + x, const('/two/42/') + x, const('/')
    return {
        'open': [('open', x)],
        'go': [('open', const('/foo/a')), ('go', x)],
        'go_twice': [('open', root), ('go', x), ('go', const('/two/5/bc')), ('go', x)],
        'set_foo': [('open', const('/two/7/b')), ('set', foo)],
        'set_named': [('open', const('/two/7/b')), ('set', foo), ('set', foo)],
        'set_message': [('open', const('/two/7/b')), ('set', foo), ('set', foo)],
        'set_two': [('open', root), ('set', two), ('go', const('/foo/q'))],
        'set_root': [('open', x), ('set', root)],
        'set_variant': [('open', root), ('set', foo)],
        'set_none': [('open', x), ('none', x)],
        'set_text': [('open', const('/foo/a')), ('set', x)],
        'set_both': [('open', const('/foo/a')), ('set', x), ('set', const('/two/9/z')), ('go', root)],
    }[fn]


JOBS = [(f, p) for f in ('open', 'go', 'set_none', 'set_text', 'set_both', 'go_twice', 'set_root') for p in PLACES if len(p) <= 16] + \
       [(f, '*' * n) for f in ('set_foo', 'set_named', 'set_message', 'set_two', 'set_variant') for n in SENT]


def c47(chk):
    """Pages that are opened at, go to and are sent to addresses and routes whose characters are unknown: on every path, what the state says after each step is compared with the route a reader of addresses finds in the address there then."""
    mod = core.compile_ir('nav', shims=('js',), nsa_args=('-heap',))
    for f in {f for f, _ in JOBS}:
        if 'wit_' + f not in mod.fns:
            raise core.AnalysisError('witness functions are gone')

    def one_job(sub, job):
        f, p = job
        fn, what = 'wit_' + f, f'{job[0]} {p!r}'
        ex = sub.explore(mod, fn, unroll=400, args={1: C(len(p), 64)}, bytes=masks_of(p))
        sub.ob(bool(ex.traces), f'{what}: completes')
        given = terms_of(p)
        steps = steps_of(f, given)
        for t in ex.traces:
            if not sub.ob(t.kind == 'ret', f'{what}: completes', t.kind, trace=t):
                continue
            sub.ob(not t.evs('use_after_delete'), f'{what}: nothing that was released is used', trace=t)
            sub.ob(len(t.evs('new')) == len(t.evs('delete')), f'{what}: what was obtained is released', trace=t)
            # what is known of a character on this path
            known = {b: C(B.members(t.bytes.get(b, m))[0], 8) for b, m in masks_of(p).items() if len(B.members(t.bytes.get(b, m))) == 1}
            now = lambda xs: [known.get(x, x) for x in xs]  # noqa: E731
            got, pushed, told = [], [], []
            for e in t.events:
                n = e.name.replace('evt_r_', '')
                if n == 'js_push':
                    pushed.append([])
                elif n == 'js_push_ch':
                    pushed[-1].extend(now(ex.bytes_of(e.args[1], 1) or [e.args[1]]))
                elif n == 'told':
                    told.append(e.args[0][1])
                elif n == 'step':
                    got.append((pushed, sorted(told), []))
                    pushed, told = [], []
                elif n == 'is':
                    got[-1][2].append(('is', e.args[0][1]))
                elif n == 'num':
                    got[-1][2].append(('num', e.args[0][1]))
                elif n == 'len':
                    got[-1][2].append(('text', e.args[0][1], []))
                elif n == 'ch':
                    got[-1][2][-1][2].extend(now(ex.bytes_of(e.args[1], 1) or [e.args[1]]))
            if not sub.ob(len(got) == len(steps), f'{what}: every step ends', f'{len(got)} of {len(steps)}', trace=t):
                continue
            for i, ((how, address), (pushed, told, said)) in enumerate(zip(steps, got)):
                at, address = f'{what}: step {i} ({how})', now(address)
                state = [x for x in said if x[:2] not in (('text', 9), ('text', 1))]
                texts = [x[2] for x in said if x[:2] == ('text', 9)]
                sub.ob(pushed == ([address] if how == 'set' else []), f'{at}: the address of the page is set exactly if a route is asked for, once, to its text', str([[T.show(c) for c in x] for x in pushed])[:300], trace=t)
                sub.ob(texts == [address], f'{at}: the text in the state is the address', str([[T.show(c) for c in x] for x in texts])[:300], trace=t)
                sub.ob(state == route(address), f'{at}: the route in the state is the one the address names', str(state)[:300], trace=t)
                sub.ob(how == 'none' or told == [1, 2], f'{at}: who is to be told of the route and its text is told once of each', str(told), trace=t)
            kept = [g for _, _, s in got for g in s if g[:2] == ('text', 1)]
            sub.ob(all(k[2] == now(given) for k in kept), f'{what}: a route that has a name stays as it was', trace=t)
    chk.parallel(one_job, JOBS)


CHECKS = {'C47': (c47, 2000)}
