"""WebSocket: frames out, frames in."""
from sa import core, terms as T
from sa.explore import Explorer, State
from sa.terms import C

SHIMS = ('asio',)
M64 = (1 << 64) - 1


def module():
    return core.compile_ir('ws', SHIMS, nsa_args=('-heap',))


def lin(t, w=64):
    """t as linear form without zero coefficients"""
    return {a: k & ((1 << w) - 1) for a, k in T.linear(t, w).items() if k & ((1 << w) - 1)}


def same(a, b):
    return a is not None and b is not None and lin(T.binop('sub', 64, a, b)) == {}


class Facts:
    """the branch facts of a path, to ask what they imply"""
    def __init__(self, mod, fname, t):
        self.ex = Explorer(mod, fname)
        self.st = State()
        self.st.facts = dict(t.facts)

    def true(self, c):
        return self.ex.simp(self.st, c) == T.TRUE

    def range(self, t, w=64):
        lo, hi, _, _ = self.ex.bounds(self.st, t, w)
        if t[0] == 'op' and t[1] == 'add' and T.is_c(t[4]):
            l, h, _, _ = self.ex.bounds(self.st, t[3], w)
            k = T.sval(t[4])
            if l + k >= 0 and h + k < 1 << w:
                lo, hi = max(lo, l + k), min(hi, h + k)
        return lo, hi


def plain(t):
    """the events that matter, without the book-keeping of the witness"""
    return [e for e in t.events if e.name not in ('new', 'delete', 'use_after_delete', 'evt_r_cat', 'call')]


# ---------------------------------------------------------------------------------------------- sending

OPS = {'text': 1, 'binary': 2, 'close': 8, 'ping': 9, 'pong': 10, 'big': 2, 'few': 1, 'huge': 2}
LIMIT = {'big': 70000, 'few': 2, 'huge': (1 << 59) + 3}
SENDN = ['begin', 'size', 'error1', 'error2', 'error3', 'socket']


def c21(chk):
    """Every path of sending a message (any opcode, any size, up to four fragments, any outcome of each write) with the header, length and
    payload buffers each write is given; frame k+1 starts from the state frame k left, whatever its position, so that longer messages repeat the same step"""
    mod = module()
    B, N = ('arg', 0), ('arg', 1)
    for name, op in OPS.items():
        fn = f'wit_send_{name}'
        limit = LIMIT.get(name, 125)
        seen_final = seen_more = 0
        for t in chk.explore(mod, fn).traces:
            ev = plain(t)
            if not ev or t.kind == 'unreachable':
                chk.ob(not ev, f'{fn}: paths end', t.show(SENDN), trace=t, names=SENDN)
                continue
            F = Facts(mod, fn, t)
            # split into writes
            frames, rest = [], []
            for e in ev:
                if e.name == 'evt_r_io':
                    frames.append({'io': e, 'bytes': [], 'buf': None})
                elif e.name == 'evt_r_byte' and frames:
                    frames[-1]['bytes'].append(e.args[0])
                elif e.name == 'evt_r_buf' and frames:
                    chk.ob(frames[-1]['buf'] is None, f'{fn}: a frame has one payload', t.show(SENDN), trace=t, names=SENDN)
                    frames[-1]['buf'] = e.args
                elif e.name in ('evt_r_resolve', 'evt_reject'):
                    rest.append((len(frames), e))
            at = C(0, 64)
            final = False
            for k, f in enumerate(frames):
                def o(ok, what, detail=''):
                    chk.ob(ok, f'{fn}: {what}', f'frame {k + 1}: {detail}', loc=f['io'].loc, trace=t, names=SENDN)
                o(f['io'].args[1] == ('arg', 5) and T.sval(f['io'].args[0]) == 0, 'frames are written to the socket of the sender', T.show(f['io'].args[1]))
                o(not final, 'nothing follows the frame with the FIN bit')
                if f['buf'] is None or not f['bytes']:
                    o(False, 'a frame consists of a header, a length and a payload', t.show(SENDN))
                    continue
                p, n = f['buf']
                o(same(p, T.ptr(B, 0, ((at, 1),) if not T.is_c(at) else ()) if not T.is_c(at) else T.ptr(B, at[1])),
                  'the payload goes on where the last frame ended', f'{T.show(p, SENDN)} instead of begin + {T.show(at, SENDN)}')
                nxt = T.binop('add', 64, at, n)
                done = same(nxt, N) or F.true(T.icmp('eq', nxt, N))
                lo, hi = F.range(n)
                o(hi <= limit, 'no frame is larger than the maximal frame size', f'{T.show(n, SENDN)} may be {hi}, limit {limit}')
                h = f['bytes'][0]
                o(T.is_c(h) and h[1] & 15 == (op if k == 0 else 0) and h[1] & 0x70 == 0, 'the first frame has the opcode of the message, the others continue it',
                  f'header {T.show(h)}')
                fin = T.is_c(h) and h[1] >> 7 == 1
                if fin:
                    o(done, 'the FIN bit is set on the last frame only', f'{T.show(nxt, SENDN)} of {T.show(N, SENDN)} bytes')
                else:
                    o(not done and F.true(T.icmp('ugt', N, nxt)), 'the last frame has the FIN bit', f'{T.show(nxt, SENDN)} of {T.show(N, SENDN)} bytes')
                final = final or fin
                ls = f['bytes'][1:]
                want = None
                if len(ls) == 1:
                    o(hi <= 125, 'lengths above 125 are written in extended form', f'{T.show(n, SENDN)} may be {hi}')
                    o(T.bits(ls[0], 8) == T.bits(n, 64)[:8], 'the length of the frame is announced', f'{T.show(ls[0], SENDN)} instead of {T.show(n, SENDN)}')
                else:
                    size = {3: 2, 9: 8}.get(len(ls))
                    o(size is not None, 'a length takes 1, 3 or 9 bytes', f'{len(ls)} bytes')
                    if size:
                        want = 126 if size == 2 else 127
                        o(T.is_c(ls[0]) and ls[0][1] == want, 'the form of the length is announced (and no mask)', T.show(ls[0]))
                        o((lo > 125 and hi < 65536) if size == 2 else lo > 65535, 'lengths are written in the shortest form', f'{T.show(n, SENDN)} between {lo} and {hi} in {size} bytes')
                        b = T.bits(n, 64)
                        for i, x in enumerate(ls[1:]):
                            s = 8 * (size - 1 - i)
                            y = T.bits(x, 8)
                            o(all(y[j] == b[s + j] or lo >> s + j + 1 == hi >> s + j + 1 and lo >> s + j & 1 == hi >> s + j & 1 == y[j] for j in range(8)), 'extended lengths are written most significant byte first', f'byte {i} is {T.show(x, SENDN)}')
                at = nxt
                seen_final += fin
                seen_more += not fin
            # outcome
            m = len(frames)
            errs = [F.true(T.icmp('eq', ('arg', 2 + i), C(0, 32))) for i in range(min(m, 3))]
            fails = [F.true(T.icmp('ne', ('arg', 2 + i), C(0, 32))) for i in range(min(m, 3))]
            got = [(n, e.name) for n, e in rest]
            if True in fails:
                i = fails.index(True)
                chk.ob(got == [(i + 1, 'evt_reject')] and rest[0][1].args == (('arg', 2 + i),) and m == i + 1,
                       f'{fn}: a failed write rejects with its error and ends the message', f'outcome {got}', trace=t, names=SENDN)
            elif final and m <= 3:
                chk.ob(got == [(m, 'evt_r_resolve')] and all(errs), f'{fn}: the message resolves once, after its last frame is written', f'outcome {got}', trace=t, names=SENDN)
                if rest:
                    chk.ob(T.split_ptr(rest[0][1].args[0])[0][0] == 'alloca', f'{fn}: it resolves with the sender', t.show(SENDN), trace=t, names=SENDN)
            else:
                chk.ob(got == [], f'{fn}: nothing is resolved before the last frame is written', f'outcome {got}', trace=t, names=SENDN)
                chk.ob(final or m == 4, f'{fn}: every frame but the last is followed by the next one', f'{m} frames', trace=t, names=SENDN)
        chk.ob(seen_final >= 2 and seen_more >= 2, f'{fn}: messages of one and of several frames are analysed', f'{seen_final} final and {seen_more} other frames')
    chk.sample('wit_send_text: header, length and payload of each frame against begin, size and the maximal frame size')


# ---------------------------------------------------------------------------------------------- reading

class Bad(Exception):
    pass


def allowed(facts, x):
    """the byte values of x the facts allow (facts over x alone)"""
    fs = {f: v for f, v in facts.items() if isinstance(f, tuple) and any(s == x for s in T.subterms(f))
          and all(s == x or s[0] in ('op', 'icmp', 'cast', 'c', 'sel') for s in T.subterms(f))}
    return {v for v in range(256) if all(T.evaluate(f, {x: C(v, 8)}) != (T.FALSE if w else T.TRUE) for f, w in fs.items())}


class Reader:
    """follows one path frame by frame"""
    def __init__(self, chk, mod, fn, t):
        self.chk, self.fn, self.t = chk, fn, t
        self.F = Facts(mod, fn, t)
        self.ev = plain(t)
        self.i = 0

    def ob(self, ok, what, detail=''):
        e = self.ev[min(self.i, len(self.ev) - 1)]
        self.chk.ob(ok, f'{self.fn}: {what}', detail, loc=e.loc, trace=self.t)
        if not ok:
            raise Bad()

    def peek(self, name=None):
        e = self.ev[self.i] if self.i < len(self.ev) else None
        return e if e is not None and (name is None or e.name == name) else None

    def take(self, name, what):
        e = self.peek(name)
        self.ob(e is not None, what, f'{self.ev[self.i].show() if self.i < len(self.ev) else "end of the path"} instead')
        self.i += 1
        return e

    def read(self, what, n=None):
        """a read is started: (buffer, size)"""
        e = self.take('evt_r_io', what)
        self.ob(e.args[0] == C(1, 32) and e.args[1] == ('arg', 0), 'frames are read from the socket of the reader', e.show())
        b = self.take('evt_r_buf', what)
        if n is not None:
            self.ob(b.args[1] == C(n, 64), what, f'{T.show(b.args[1])} bytes are read')
        return b.args

    def outcome(self):
        """err of the read: None when it succeeded, else the error"""
        e = self.take('evt_err', 'each step waits for its read')
        r = ('res', 'evt_err', (), self.nerr)
        self.nerr += 1
        if self.F.true(T.icmp('eq', r, C(0, 32))):
            return None
        self.ob(self.F.true(T.icmp('ne', r, C(0, 32))), 'the outcome of a read is looked at')
        x = self.take('evt_r_event', 'a failed read is told')
        self.ob(x.args[0] == C(5, 32) and T.bits(x.args[2], 64)[:32] == T.bits(r, 32), 'a failed read is told as error, once', x.show())
        self.ob(self.take('evt_done', 'nothing is read after a failure') is not None, '')
        return r

    def bytes_in(self, n):
        """n opaque bytes arrive: their terms"""
        out = []
        for i in range(n):
            e = self.take('evt_in', 'bytes arrive')
            out.append(('res', 'evt_in', (), e.k))
        return out

    nerr = 0


def unmask(R, base, length, mask):
    """the loop over the payload of a masked frame; consumes its events; 'end' when the path stops inside the loop"""
    F, t = R.F, R.t
    if not R.peek('loop_enter'):
        R.ob((F.true(T.icmp('eq', length, C(0, 64))) or exits(F, C(0, 64), length)) and not R.peek('evt_xor') and not R.peek('evt_set'), 'the payload of a masked frame is unmasked', 'no byte of it is touched')
        return
    phis = dict(R.take('loop_enter', '').args)
    init, first = phis, True
    index = None
    while True:
        # one pass
        e = R.peek()
        body = []
        while e is not None and e.name in ('evt_xor', 'evt_set', 'evt_get'):
            body.append(e)
            R.i += 1
            e = R.peek()
        body = [x for x in body if x.name != 'evt_get']
        if not body:
            # left at the top of the loop
            R.ob(index is not None and exits(F, index, length), 'all bytes of the frame are unmasked', 'the loop is left early')
            return
        R.ob(len(body) == 1, 'each byte is unmasked once', f'{len(body)} times')
        x = body[0]
        addr, val = x.args
        if x.name == 'evt_set':
            g = [y for y in R.ev[:R.i] if y.name == 'evt_get' and y.args == (addr,)]
            r = ('res', 'evt_get', (), g[-1].k) if g else None
            ops = [val[3], val[4]] if val[0] == 'op' and val[1] == 'xor' else []
            R.ob(r in ops, 'a byte is replaced by itself combined with the mask', T.show(val))
            ops.remove(r)
            val = ops[0]
        i = T.binop('sub', 64, addr, base)
        R.ob(val[0] == 'load', 'a byte is combined with a byte of the mask', T.show(val))
        mo = T.binop('sub', 64, T.ptr(val[1], val[2], val[5] if len(val) > 5 else ()), mask)
        mphi = {s for s in T.subterms(i) if s[0] == 'phi'} | {s for s in T.subterms(mo) if s[0] == 'phi'}
        at0 = {p: v for p, v in init.items()}
        if first:
            R.ob(T.evaluate(i, at0) == C(0, 64), 'unmasking starts with the first byte of the frame', T.show(T.evaluate(i, at0)))
            m0 = T.evaluate(mo, at0)
            R.ob(m0 == C(0, 64), 'unmasking starts with the first byte of the mask', T.show(m0))
            lo, hi = F.range(mo)
            R.ob(hi <= 3 or T.lowbits(mo, 2) == {} or within(mo), 'only the four bytes of the mask are used', f'{T.show(mo)} may be {hi}')
        index = i
        e = R.peek('loop_back')
        if e is None:
            # leaves after this pass
            R.ob(exits(F, T.binop('add', 64, i, C(1, 64)), length), 'all bytes of the frame are unmasked', f'the loop is left after byte {T.show(i)} of {T.show(length)}')
            return
        R.i += 1
        nxt = dict(e.args)
        R.ob(same(T.evaluate(i, nxt), T.binop('add', 64, i, C(1, 64))), 'unmasking goes on with the next byte', T.show(T.evaluate(i, nxt)))
        d = T.lowbits(T.binop('sub', 64, T.evaluate(mo, nxt), T.binop('add', 64, mo, C(1, 64))), 2)
        R.ob(d == {}, 'and the next byte of the mask', f'{T.show(T.evaluate(mo, nxt))} after {T.show(mo)}')
        first = False
        if R.peek() is None:
            return 'end'


def within(mo):
    """0..3 by construction"""
    return mo[0] == 'op' and mo[1] in ('and', 'urem') and T.is_c(mo[4]) and mo[4][1] == (3 if mo[1] == 'and' else 4) or (
        mo[0] == 'cast' and within(mo[4]))


def exits(F, count, length):
    """the facts say that count has reached length"""
    for p in ('eq', 'uge'):
        if F.true(T.icmp(p, count, length)):
            return True
    d = T.linear(T.binop('sub', 64, count, length), 64)
    for f, v in F.st.facts.items():
        if f[0] == 'icmp':
            p = f[1] if v else T.NEG[f[1]]
            a, b = (f[2], f[3]) if T.width_of(f[2]) in (64, None) else (None, None)
            if a is None:
                continue
            for q, x, y in ((p, a, b), (T.SWAP[p], b, a)):
                if q in ('eq', 'uge', 'sge') and lin(T.binop('sub', 64, x, y)) == {k: c & M64 for k, c in d.items() if c & M64}:
                    return True
    return False


def length_bits(form, h1, ext):
    if form == 0:
        return T.bits(h1, 8)[:7] + [0] * 57
    out = []
    for x in reversed(ext):
        out += T.bits(x, 8)
    return out + [0] * (64 - len(out))


def one_frame(chk, mod, fn, t, seen):
    R = Reader(chk, mod, fn, t)
    R.i = next(i for i, e in enumerate(R.ev) if e.name == 'evt_r_io')
    R.read('a frame starts with a header of two bytes', 2)
    if R.outcome():
        seen.add('error')
        return
    h0, h1 = R.bytes_in(2)
    H0, H1 = allowed(t.facts, h0), allowed(t.facts, h1)
    if not H0 or not H1:
        return
    ops = {v & 15 for v in H0}
    forms = {0 if v & 127 < 126 else v & 127 for v in H1}
    masks = {v >> 7 for v in H1}

    def bad_input():
        e = R.peek('evt_r_event')
        if e is None or e.args[0] != C(4, 32):
            return False
        R.ob(not ops & {0, 1, 2, 8, 9, 10}, 'known opcodes are not bad input', f'opcodes {sorted(ops)}')
        R.i += 1
        R.take('evt_done', 'nothing is read after bad input')
        seen.add('bad')
        return True
    if bad_input():
        return
    # extended length
    ext, form = [], 0
    if forms != {0} or (R.peek('evt_r_io') and R.ev[R.i + 1].args[1] in (C(2, 64), C(8, 64))):
        R.ob(len(forms) == 1, 'the form of the length is decided by the second header byte', f'forms {sorted(forms)}')
        form = forms.pop()
        R.ob(form in (126, 127), 'lengths below 126 have no extension', '')
        n = 2 if form == 126 else 8
        R.read(f'an extended length of {n} bytes is read', n)
        if R.outcome():
            return
        ext = R.bytes_in(n)
        if bad_input():
            return
    # mask
    mask = None
    if masks != {0}:
        R.ob(masks == {1}, 'the mask bit decides whether a mask is read', f'values {sorted(masks)}')
        mask, _ = R.read('the mask of four bytes is read', 4)
        if R.outcome():
            return
        R.bytes_in(4)
        if bad_input():
            return
    # payload
    known = ops & {0, 1, 2, 8, 9, 10}
    R.ob(known == ops, 'frames with unknown opcodes are bad input', f'opcodes {sorted(ops)}')
    kind = 1 if ops <= {0, 1, 2} else ops.copy().pop() if len(ops) == 1 else None
    R.ob(kind is not None, 'the opcode decides what becomes of a frame', f'opcodes {sorted(ops)}')
    want = length_bits(form, h1, ext)
    c = R.take('evt_cells', 'room is made for the payload')
    cells = ('res', 'evt_cells', (), c.k)
    size = c.args[0]
    p, n = R.read('the payload is read')
    R.ob(T.bits(n, 64) == want or known_bits(t, n, h1, want), 'exactly as many bytes are read as the header announces', f'{T.show(n)} bytes in form {form}')
    off = T.binop('sub', 64, p, cells)
    if kind == 1:
        R.ob(off[0] == 'cast' and off[4][0] == 'res' and off[4][1] == 'evt_size', 'a payload is appended to what there is of the message', f'at offset {T.show(off)}')
    else:
        R.ob(off == C(0, 64), 'the payload of a control frame is read on its own', f'at offset {T.show(off)}')
    R.ob(same(size, T.binop('add', 64, off, n)), 'room is made for precisely the payload', f'{T.show(size)} bytes for {T.show(n)} at {T.show(off)}')
    if R.outcome():
        return
    f = R.take('evt_r_fill', 'the payload arrives')
    if mask is not None:
        if unmask(R, p, n, mask) == 'end':
            seen.add('mask')
            return
    R.ob(R.peek('evt_xor') is None and R.peek('evt_set') is None and R.peek('loop_enter') is None, 'payloads without mask are left as they are', '')
    if kind == 1:
        fins = {v >> 7 for v in H0}
        R.ob(len(fins) == 1, 'the FIN bit decides whether the message is complete', '')
        if fins == {1}:
            e = R.take('evt_r_event', 'a complete message is told')
            R.ob(e.args[0] == C(1, 32) and e.args[1] == cells and same(e.args[2], size), 'a complete message is told with its whole payload', e.show())
            seen.add('message')
        else:
            seen.add('part')
    else:
        e = R.take('evt_r_event', 'a control frame is told')
        R.ob(e.args[0] == C(kind, 32), 'a control frame is told as what it is', e.show())
        if kind == 8:
            R.ob(e.args[1] == cells and same(e.args[2], size), 'the payload of a close frame is told', e.show())
        seen.add(kind)
    if kind == 8:
        R.take('evt_done', 'nothing is read after a close frame')
        return
    left = C(0, 64) if kind == 1 and fins == {1} else size if kind == 1 else None
    if left == C(0, 64) and R.peek('evt_cells') and R.peek().args[0] == left:
        R.i += 1
    R.read('the next header is read', 2)
    # a frame of three bytes follows
    room = R.take('evt_cells', 'one read is started at a time')
    if left is None:
        before = T.binop('sub', 64, room.args[0], C(3, 64))
        R.ob(before[0] == 'cast' and before[4][:2] == ('res', 'evt_size'), 'a control frame leaves the message it comes in alone', f'room for {T.show(room.args[0])} bytes')
        left = before
    R.ob(same(room.args[0], T.binop('add', 64, left, C(3, 64))), 'after a message the next one starts out empty, after a part it goes on', f'room for {T.show(room.args[0])} bytes')
    at, n = R.read('the payload of the next frame is read', None)
    R.ob(n == C(3, 64) and same(T.binop('sub', 64, at, ('res', 'evt_cells', (), room.k)), left), 'the next payload goes behind what there is of the message', T.show(at))
    R.ob(R.peek('evt_r_io') is None, 'one read is started at a time', '')
    R.take('evt_done', 'nothing else happens')


def known_bits(t, n, h1, want):
    """a short length may be masked in another way: compare for every second header byte the path allows"""
    if want[7:] != [0] * 57:
        return False
    for v in allowed(t.facts, h1):
        if T.evaluate(n, {h1: C(v, 8)}) != C(v & 127, 64):
            return False
    return True


def c22(chk):
    """Every path of reading one frame at any point of a message (all headers, lengths in all forms, masked or not, every outcome of each read),
    the unmasking loop decided by induction over its passes; and sequences of frames for what is kept from one frame to the next"""
    mod = module()
    seen = set()
    for t in chk.explore(mod, 'wit_read_frame', loop_events=True).traces:
        try:
            one_frame(chk, mod, 'wit_read_frame', t, seen)
        except Bad:
            pass
    want = {'error', 'bad', 'mask', 'message', 'part', 8, 9, 10}
    if seen < want and not chk.fail:
        raise core.AnalysisError(f'C22: not every kind of frame was met: {sorted(map(str, want - seen))}')
    # from one frame to the next
    low = lambda i: T.cast('zext', 8, 64, T.binop('and', 8, ('arg', i), C(63, 8)))
    n0 = T.cast('zext', 32, 64, ('res', 'evt_size', (), 0))
    n1 = T.cast('zext', 32, 64, ('res', 'evt_size', (), 1))
    for fn, ctl in (('wit_read_two', False), ('wit_read_between', True)):
        for t in chk.explore(mod, fn, loop_events=True).traces:
            ev = plain(t)
            msgs = [e for e in ev if e.name == 'evt_r_event']
            fills = [e for e in ev if e.name == 'evt_r_fill']

            def ob(ok, what, detail=''):
                chk.ob(ok, f'{fn}: {what}', detail, trace=t)
            ob(t.kind == 'ret' and len(fills) == (3 if ctl else 2), 'every frame is read', t.show())
            fin = t.fact(('arg', 1)) if not ctl else False
            size = {}
            for e in ev:
                if e.name == 'evt_cells':
                    size[('res', 'evt_cells', (), e.k)] = e.args[0]
            if ctl:
                l1, l2, l3 = low(2), low(3), low(4)
                pong = t.fact(('arg', 1))
                ob([e.args[0] for e in msgs] == [C(10 if pong else 9, 32), C(1, 32)], 'a control frame within a message is told on its own', t.show())
                for n in (n0, n1):
                    if msgs and same(msgs[-1].args[2], T.binop('add', 64, T.binop('add', 64, n, l1), l3)):
                        break
                else:
                    ob(False, 'a control frame leaves the message it comes in alone', f'message of {T.show(msgs[-1].args[2])} bytes' if msgs else 'no message')
                if fills and msgs:
                    ob(same(T.binop('sub', 64, T.ptr(fills[-1].args[0]), msgs[-1].args[1]), T.binop('add', 64, n, l1)), 'the rest of the message goes behind its first part', fills[-1].show())
            else:
                l1, l2 = low(2), low(3)
                if fin:
                    ob([e.args[0] for e in msgs] == [C(1, 32)] * 2 and same(msgs[1].args[2], l2), 'a message starts out empty', t.show())
                    ob(bool(msgs) and any(same(msgs[0].args[2], T.binop('add', 64, n, l1)) for n in (n0, n1)), 'a message consists of its frames', t.show())
                    if len(fills) == 2 and len(msgs) == 2:
                        ob(fills[1].args[0] == msgs[1].args[1], 'the payload of a new message goes to its start', fills[1].show())
                else:
                    ob([e.args[0] for e in msgs] == [C(1, 32)], 'fragments are one message', t.show())
                    n = next((n for n in (n0, n1) if msgs and same(msgs[0].args[2], T.binop('add', 64, T.binop('add', 64, n, l1), l2))), None)
                    ob(n is not None, 'a message consists of its fragments', f'{T.show(msgs[0].args[2])} bytes' if msgs else '')
                    if n is not None and len(fills) == 2:
                        ob(same(T.binop('sub', 64, fills[1].args[0], msgs[0].args[1]), T.binop('add', 64, n, l1)), 'fragments follow each other', fills[1].show())
    chk.sample('wit_read_frame: reads, sizes, offsets and events of one frame against its header')


CHECKS = {'C21': (c21, 300), 'C22': (c22, 500)}
