"""The life of a WebSocket endpoint."""
from sa import core, terms as T
from sa.explore import Explorer, State
from sa.terms import C

SHIMS = ('asio', 'owner')
NULL = C(0, 64)
ACT = {0: 'constructed', 1: 'start_messaging', 2: 'send_message', 3: 'send_close', 4: 'stop', 5: 'a write ends', 6: 'a close frame arrives',
       7: 'a message arrives', 8: 'a ping arrives', 9: 'a read fails', 10: 'bad input arrives', 11: 'its owner lets go'}
N = ['socket', 'waiting', 'e0', 'e1', 'e2', 'e3', 'e4', 'p0', 'p1', 'p2', 'p3', 'p4']
EOF, RESET = 2, 104


def module():
    return core.compile_ir('endpoint', SHIMS, nsa_args=('-heap',))


class Model:
    """what an endpoint may do next, given what happened to it so far"""
    def __init__(self, chk, mod, fn, t):
        self.chk, self.fn, self.t = chk, fn, t
        self.ex = Explorer(mod, fn)
        self.st = State()
        self.st.facts = dict(t.facts)
        self.started = self.stopped = self.read_over = self.reading = False
        self.owned = True
        self.want_close = self.own_close = self.close_out = self.close_sent = False
        self.got_close = self.told_close = False
        self.sending = None         # 'message' / 'close'
        self.front = None
        self.room = None            # what the last look into the queue showed
        self.must_look = self.resting = self.pop_due = False
        self.due = []               # what has to be told in this step
        self.pushed = None          # what has to be put into the queue in this step
        self.shut = None
        self.head = None
        self.k = -1
        self.act = None
        self.gone = False
        self.news = self.dels = 0

    def true(self, c):
        return self.ex.simp(self.st, c) == T.TRUE

    def ob(self, ok, what, detail='', e=None):
        self.chk.ob(ok, what, f'{self.fn}, step {self.k} ({ACT.get(self.act)}){": " if detail else ""}{detail}', loc=e.loc if e else None, trace=self.t, names=N)
        return ok

    def error(self):
        """0, EOF, RESET or 'other'"""
        a = ('arg', 2 + self.k)
        for v in (0, EOF, RESET):
            if self.true(T.icmp('eq', a, C(v, 32))):
                return v
        if all(self.true(T.icmp('ne', a, C(v, 32))) for v in (0, EOF, RESET)):
            return 'other'
        return 0 if self.ex.simp(self.st, T.icmp('ne', a, C(0, 32))) != T.TRUE else 'any'

    def look(self, n):
        self.room = True if self.true(T.icmp('ne', n, NULL)) else False if self.true(T.icmp('eq', n, NULL)) else None

    def begin(self, a, nested, p):
        if not nested:
            self.end()
            self.k += a != 0
            self.act = a
            self.due = []
        err = self.error() if a in (5, 9) else None
        if a == 1 and not self.stopped:
            if not self.started:
                self.must_look = True
            self.started = True
        elif a == 2:
            self.pushed = p
            self.resting = False
        elif a == 3:
            self.want_close = self.own_close = True
            self.resting = False
        elif a == 4:
            self.stopped = True
            self.shut = 1
        elif a == 5:
            what, self.sending = self.sending, None
            if err == 0:
                if what == 'message':
                    self.pop_due = True
                    self.must_look = True
                else:
                    self.close_sent = True
                    if self.got_close and not self.told_close:
                        self.due.append((8, None))
            else:
                self.resting = True
                if what == 'close':
                    self.close_out = False
                if self.want_close and err in (EOF, RESET):
                    self.closed_by_peer = True
                    if not self.told_close:
                        self.due.append((8, None))
                elif not (self.want_close and err == 'any'):
                    self.due.append((5, ('arg', 2 + self.k)))
        elif a == 6:
            self.reading = False
            self.read_over = True
            self.got_close = True
            if self.own_close:
                if not self.told_close:
                    self.due.append((8, None))
            self.want_close = True
        elif a == 7:
            self.due.append((1, None))
        elif a == 8:
            pass
        elif a == 9:
            self.reading = False
            self.read_over = True
            if not self.told_close:
                self.due.append((5, ('arg', 2 + self.k)))
        elif a == 10:
            self.reading = False
            self.read_over = True
            self.due.append((4, None))
        elif a == 11:
            self.owned = False
        if a in (7, 8):
            self.reading = False

    def end(self):
        """obligations at the end of a step"""
        if self.act is None:
            return
        if not self.stopped:
            for kind, v in self.due:
                self.ob(False, {1: 'a message that arrived is told', 8: 'a finished closing handshake is told', 5: 'an error is told', 4: 'bad input is told'}[kind])
        self.ob(self.pushed is None, 'a message to send is put into the queue')
        self.ob(self.shut is None, 'stopping shuts the socket down')
        self.ob(not self.pop_due or self.room is False, 'a message that was sent is taken from the queue')
        self.pop_due = False
        if self.started and not self.stopped and self.sending is None and not self.resting and not self.gone:
            if self.want_close:
                self.ob(self.close_out, 'a close frame asked for or to be answered is sent as soon as nothing else is being sent')
            else:
                self.ob(not self.must_look and self.room is False, 'messages are sent as long as there are any', 'the queue was not seen to be empty')
        if self.started and not self.gone:
            self.ob(self.reading or self.read_over, 'an endpoint keeps reading')

    def run(self):
        told_before = None
        reacted = not self.fn.startswith('wit_ep_react')
        P = lambda k: ('arg', 7 + k)
        for e in self.t.events:
            n = e.name
            if n == 'new':
                self.news += 1
            elif n == 'delete':
                self.dels += 1
            elif n == 'use_after_delete':
                self.ob(False, 'nothing is used after its release', T.show(e.args[0]), e)
            elif n == 'evt_r_act':
                a = T.sval(e.args[0])
                nested = told_before is not None and not reacted
                if nested:
                    reacted = True
                p = told_before if nested else P(self.k + 1)
                told_before = None
                self.begin(a, nested, p)
            elif n == 'evt_r_pick':
                told_before = None
            elif n == 'evt_r_io' and T.sval(e.args[0]) == 1:
                if not (self.act in (6, 7, 8) and not self.reading and self.act == 6):
                    self.ob(self.started, 'nothing is read before messaging starts', '', e)
                    self.ob(not self.read_over, 'nothing is read after a close frame, an error or bad input', '', e)
                    self.ob(not self.reading or self.act in (7, 8), 'one frame is read at a time', '', e)
                    self.reading = True
            elif n == 'evt_r_push':
                self.ob(self.pushed is not None and e.args[0] == self.pushed, 'what is put into the queue is the message to send, once', T.show(e.args[0], N), e)
                self.pushed = None
                self.must_look = True
            elif n == 'evt_r_waiting':
                self.look(e.args[0])
                self.must_look = False
            elif n == 'evt_r_front':
                self.look(e.args[0])
                self.ob(self.room is True, 'the queue is asked for a message only if it has one', '', e)
                self.front = e.res
            elif n == 'evt_r_send':
                self.ob(self.started, 'nothing is sent before messaging starts', '', e)
                self.ob(not self.stopped or self.act == 5, 'a stopped endpoint does not start sending', '', e)
                self.ob(self.sending is None, 'messages are sent one at a time', '', e)
                self.ob(not self.want_close, 'no message is sent once the endpoint is closing', '', e)
                self.ob(self.front is not None and e.args[0] == self.front, 'what is sent is the first message of the queue', T.show(e.args[0], N), e)
                self.ob(not self.pop_due, 'a message is sent after the one before it was taken from the queue', '', e)
                self.sending = 'message'
                self.front = None
            elif n == 'evt_r_taken':
                self.ob(self.pop_due, 'a message stays in the queue until it was sent', '', e)
            elif n == 'evt_r_pop':
                self.look(e.args[0])
                self.ob(self.room is True, 'a message is taken from the queue only if it has one', '', e)
                self.ob(self.pop_due, 'a message is taken from the queue once, after it was sent', '', e)
                self.pop_due = False
                self.front = None
            elif n == 'evt_r_io':
                self.ob(self.started and (not self.stopped or self.act == 5), 'a close frame is sent between start and stop', '', e)
                self.ob(self.want_close, 'a close frame is sent if asked for or received', '', e)
                self.ob(self.sending is None, 'a close frame does not cut into another one', '', e)
                self.ob(not self.close_out, 'a close frame is sent once', '', e)
                self.sending = 'close'
                self.close_out = True
                self.head = []
            elif n == 'evt_r_byte':
                self.head.append(T.sval(e.args[0]) if T.is_c(e.args[0]) else e.args[0])
                if len(self.head) == 2:
                    self.ob([x if not isinstance(x, int) else x & 255 for x in self.head] == [0x88, 0], 'a close frame is a close frame', str(self.head), e)
            elif n == 'evtx_r_shutdown' or n == 'evt_r_shutdown':
                self.ob(self.stopped and self.shut == 1, 'the socket is shut down when stopped', '', e)
                self.shut = None
            elif n == 'evt_r_told':
                kind = T.sval(e.args[0])
                self.ob(not self.stopped, 'a stopped endpoint tells nothing', str(kind), e)
                told_before = e.args[1]
                if kind == 8:
                    self.ob(not self.told_close, 'the close is told once', '', e)
                    self.ob((self.got_close and (self.own_close or self.close_sent)) or (8, None) in self.due or (self.act == 5 and self.want_close and self.error() == 'any'),
                            'the close is told when both sides have closed', '', e)
                    self.told_close = True
                    self.due = [d for d in self.due if d[0] != 8]
                else:
                    v = e.args[2] if kind == 5 else None
                    ok = (kind, v) in self.due or (kind == 5 and self.told_close and self.act == 9) or (kind == 5 and self.act == 5 and self.error() == 'any')
                    self.ob(ok, 'what is told is what happened, once', f'{kind} {T.show(e.args[2], N)}', e)
                    if (kind, v) in self.due:
                        self.due.remove((kind, v))
            elif n == 'evt_r_gone':
                self.ob(not self.owned and self.sending is None and not self.reading, 'an endpoint lives while it is owned, reading or sending',
                        f'{"owned, " if self.owned else ""}{"sending, " if self.sending else ""}{"reading" if self.reading else ""}', e)
                self.gone = True
            elif n == 'evt_r_done':
                self.end()
                self.act = None
                self.owned = False
        if self.sending is None and not self.reading:
            self.ob(self.gone, 'an endpoint nobody needs is released')
            self.ob(self.news == self.dels, 'nothing is left when an endpoint is gone', f'{self.news} allocations, {self.dels} released')


def c23(chk):
    """Histories of an endpoint (calls of its user, from outside or from its own handlers, and answers of the network, in every order up to four after its
    construction) on every path, followed by a typestate model of the endpoint: what may be sent, read, told and released at every point, and what has to be"""
    mod = module()
    fns = [f for f in mod.fns if f.startswith('wit_ep_')]

    def one(sub, fn):
        n = 0
        for t in sub.explore(mod, fn).traces:
            sub.ob(t.kind == 'ret', 'an endpoint lets no exception out', f'{fn}: {t.kind}', trace=t, names=N)
            if not t.evs('evt_r_done'):
                continue        # a step that is not possible here: the history up to there is part of others
            n += 1
            Model(sub, mod, fn, t).run()
            if n == 20:
                sub.sample(f'{fn}: {t.show(N)[:600]}')
        if n == 0:
            raise core.AnalysisError(f'{fn}: no history ends')
    chk.parallel(one, fns)


CHECKS = {'C23': (c23, 20000)}
