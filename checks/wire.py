"""Messages written to JSON and read back."""
from sa import core, terms as T
from sa.terms import C
from .json import INT, BOOL, STR, reading, writing, elem, ROOT

RKEY, CKEY = ('obj', {'v': INT}), ('obj', {'w': INT, 's': STR})
DOC, SMALL, PRIV, UID = ('obj', {'p': INT, 'q': STR}), ('obj', {'t': INT}), ('obj', {'x': INT, 'y': INT}), ('obj', {'u': INT})
NOTE = ('obj', {'level': INT, 'value': STR})
P1, P2, P3, PE = ('tup', [RKEY]), ('tup', [RKEY, CKEY]), ('tup', [UID, RKEY, CKEY]), ('tup', [CKEY])
C0, C1, C2 = ('tup', []), ('tup', [RKEY]), ('tup', [UID, RKEY])
PATH, ID, PAYLOAD, PRIVATE, CONFIRMED = range(5)


def msg(path, **parts):
    return ('msg', [(PATH, path)] + [({'uid': ID, 'payload': PAYLOAD, 'private': PRIVATE, 'confirmed': CONFIRMED}[k], v) for k, v in parts.items()])


A = lambda i: ('arg', i)
n = lambda i: ('int', T.cast('sext', 32, 64, A(i)))
text = lambda d=0, at=6: ('str', T.ptr(A(at), d), A(at + 1))
o = lambda **m: ('obj', m)
arr = lambda *xs: ('arr', list(xs))
rk, uid, small = (lambda i: o(v=n(i))), (lambda i: o(u=n(i))), (lambda i: o(t=n(i)))
ck = lambda i, at=6: o(w=n(i), s=text(at=at))
doc = lambda i, d=0, at=6: o(p=n(i), q=text(d, at))
priv = lambda i: o(x=n(i), y=n(i + 1))
yes = ('bool', T.icmp('eq', A(5), C(0, 32)))

# message: what it has to look like as a document; what is written for its values
MESSAGES = {
    'uc1': (msg(C1, payload=DOC), arr(rk(0), doc(1))),
    'uc0': (msg(C0, payload=DOC), arr(('null',), doc(1))),
    'uc2u': (msg(C2, uid=UID, payload=DOC), arr(arr(uid(0), rk(1)), uid(2), doc(3))),
    'uc1p': (msg(C1, payload=DOC, private=PRIV), arr(rk(0), doc(1), priv(2))),
    'uc2a': (msg(P2, uid=UID, payload=DOC, private=PRIV), arr(arr(rk(0), ck(4)), uid(1), doc(5, 1), priv(2))),
    'ur1': (msg(P1), rk(0)),
    'ur2': (msg(P2), arr(rk(0), ck(1))),
    'ur3u': (msg(P3, uid=UID), arr(arr(uid(0), rk(1), ck(2)), uid(3))),
    'ure': (msg(PE, uid=UID), arr(ck(1), uid(3))),
    'urn': (msg(('tup', []), uid=UID), arr(('null',), uid(3))),
    'uu2': (msg(P2, payload=DOC), arr(arr(rk(0), ck(1)), doc(2, 1))),
    'uu2u': (msg(P2, uid=UID, payload=SMALL), arr(arr(rk(0), ck(1)), uid(3), small(2))),
    'ud2': (msg(P2), arr(rk(0), ck(1))),
    'ud1u': (msg(P1, uid=UID), arr(rk(0), uid(1))),
    'dc2': (msg(P2, payload=DOC), arr(arr(rk(0), ck(1)), doc(2, 1))),
    'dc1ub': (msg(P1, uid=UID, payload=DOC, confirmed=BOOL), arr(rk(0), uid(1), doc(2), yes)),
    'dr2': (msg(P2, payload=DOC), arr(arr(rk(0), ck(1)), doc(2, 1))),
    'dr1u': (msg(P1, uid=UID, payload=SMALL), arr(rk(0), uid(1), small(2))),
    'dn2': (msg(P2, payload=None), arr(rk(0), ck(1))),
    'du2b': (msg(P2, payload=DOC, confirmed=BOOL), arr(arr(rk(0), ck(1)), doc(2, 1), yes)),
    'du1': (msg(P1, payload=SMALL), arr(rk(0), small(1))),
    'dd2': (msg(P2), arr(rk(0), ck(1))),
    'dd1ub': (msg(P1, uid=UID, confirmed=BOOL), arr(rk(0), uid(1), yes)),
}

S2 = ('tup', [RKEY, UID])
d2, s2 = arr(rk(0), ck(1, 3)), arr(rk(0), uid(1))
CHANNELS = {
    'up': {
        'note': (NOTE, o(level=n(0), value=text(at=3))),
        'uc': (msg(C1, payload=DOC), arr(rk(0), doc(1, at=3))),
        'ur': (msg(P2), d2),
        'uu': (msg(P2, payload=DOC), arr(d2, doc(2, 1, 3))),
        'ud': (msg(P2), d2),
        'urs': (msg(S2), s2),
    },
    'down': {
        'note': (NOTE, o(level=n(0), value=text(at=3))),
        'dc': (msg(P2, payload=DOC), arr(d2, doc(2, 1, 3))),
        'dr': (msg(P2, payload=DOC), arr(d2, doc(2, 1, 3))),
        'dn': (msg(P2, payload=None), d2),
        'du': (msg(P2, payload=DOC), arr(d2, doc(2, 1, 3))),
        'dd': (msg(P2), d2),
        'drs': (msg(S2, payload=SMALL), arr(s2, small(2))),
        'dns': (msg(S2, payload=None), s2),
    },
}


def channels(chk, mod):
    out = []
    for ch, ms in CHANNELS.items():
        alts = {}
        for k, (s, w) in ms.items():
            for t in chk.explore(mod, f'wit_i_{ch}_{k}').traces:
                e = t.evs('evt_r_alternative')
                at, size = (e[0].args[0][1], e[0].args[1][1]) if e else (-1, -1)
                chk.ob(0 < at < size == len(ms) + 1 and at not in alts, f'wit_i_{ch}_{k}: the channel of the definition carries exactly the messages it is to carry, each once',
                       f'alternative {at} of {size}', trace=t)
                alts[at] = k
        out.append((ch, alts))
    return out


def c34(chk):
    """Every kind of message, with and without identity, payload, private payload and confirmation, alone and as an alternative of what the channels of a
    definition can carry: the document written has the values of the message, in the order path, identity, payload, private payload or confirmation,
    behind the number of the alternative; a document of unknown shape is read exactly when those values are there, each from the place it was written to."""
    try:
        mod = core.compile_ir('wire', shims=('json',))
    except core.CompileError as e:
        if e.in_library():
            raise
        # is it that the channels do not carry what they are to carry?
        channels(chk, core.compile_ir('wire', shims=('json',), defines=('WIT_CHANNELS_ONLY',)))
        if not core.unlisted(chk):
            raise
        return
    jobs = [(reading, (k, s)) for k, (s, _) in MESSAGES.items()] + [(writing, (k, w)) for k, (_, w) in MESSAGES.items()]
    for ch, alts in channels(chk, mod):
        ms = CHANNELS[ch]
        if sorted(alts) == list(range(1, len(ms) + 1)):
            jobs.append((reading, (ch, ('var', [None] + [ms[alts[i]][0] for i in range(1, len(ms) + 1)]))))
            jobs += [(writing, (f'{ch}_{k}', arr(('int', C(i, 64)), ms[k][1]))) for i, k in alts.items()]
    chk.parallel(lambda sub, j: j[0](sub, mod, *j[1]), jobs)


CHECKS = {'C34': (c34, 500)}
