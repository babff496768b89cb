"""Promises: pipes, rejection, lifetime, held values."""
import itertools

from sa import core, terms as T
from sa.terms import C

X, I1, I2, I3 = ('arg', 0), ('arg', 1), ('arg', 2), ('arg', 3)
N = ['x', 'step1', 'step2', 'step3']
ZERO = C(0, 64)
GONE = (1 << 64) - 8     # what a value moved from reads as


def plus(x, n):
    return T.binop('add', 64, x, C(n, 64))


class Sim:
    """what a pipe is specified to do: the reference the paths of the program are compared with"""
    def __init__(self, choices=None, ks=None):
        self.ev, self.k, self.choices = [], ks if ks is not None else {}, choices or {}
        self.state = 'pending'

    def step(self, i, id, args, name='evt_step'):
        k = self.k[i] = self.k.get(i, -1) + 1
        a = list(args) + [ZERO] * (2 - len(args))
        self.ev.append((name, (i,), (id, C(len(args), 32), a[0], a[1])))
        return ('res', name, (i,), k)

    def choose(self, i):
        self.ev.append(('evt_choose', (i,), ()))
        t = ('res', 'evt_choose', (i,), sum(1 for e in self.ev if e[0] == 'evt_choose' and e[1] == (i,)) - 1)
        self.used.append(t)
        return self.choices.get(t, 0)

    def run(self, pipe, args):
        """resolve the pipe with args"""
        self.used, self.state = [], 'running'
        n = 0
        while n < len(pipe):
            s = pipe[n]
            n += 1
            kind = s[0]
            if kind == 'f':
                args = [self.step(s[1], s[2], args)]
            elif kind == 'fv':
                self.step(s[1], s[2], args)
                args = []
            elif kind == 'two':
                r = self.step(s[1], s[2], args)
                args = [r, plus(r, 1)]
            elif kind == 'none':
                self.step(s[1], s[2], args)
                args = []
            elif kind == 'tap':
                self.step(s[1], s[2], args)
            elif kind == 'hold':
                args = [s[1]]
            elif kind == 'catch':
                pass
            elif kind in ('any', 'any2', 'any0'):
                r = self.step(s[1], s[2], args)
                c = self.choose(s[1])
                if c == 0:
                    args = [r]
                elif kind == 'any2' or c in ((1,) if kind == 'any0' else (1, 2)):
                    types = (71,) if kind == 'any2' else (70,) if kind == 'any0' else (7,) if c == 1 else (8,)
                    while n < len(pipe):
                        h = pipe[n]
                        n += 1
                        if h[0] == 'catch' and h[2] in types:
                            self.ev.append(('evt_caught', (h[1],), (C(h[2], 32), ZERO if h[2] == 70 else r)))
                            if h[2] == 71:
                                self.ev.append(('evt_note', (h[1],), (plus(r, 1), ZERO)))
                            self.state = 'caught'
                            return
                    self.state = 'unhandled'
                    return
                elif c == 3 and kind == 'any':
                    self.state = 'terminated'
                    return
                else:
                    self.state = 'waiting'
                    return
        self.state = 'resolved'


PIPES = {
    'plain': [('f', 1, I1), ('f', 2, I2), ('f', 3, I3)],
    'single': [('f', 1, I1)],
    'move': [('f', 1, I1), ('f', 2, I2), ('f', 3, I3)],
    'args': [('two', 1, I1), ('f', 2, I2), ('fv', 3, I3), ('f', 4, I1), ('none', 5, I2), ('fv', 6, I3)],
    'call': [('f', 1, I1), ('two', 2, I2), ('fv', 3, I3), ('f', 4, I1)],
    'callend': [('f', 1, I1), ('f', 2, I2)],
    'callonly': [('f', 1, I1)],
    'nest': [('f', 1, I1), ('two', 2, I2), ('f', 3, I3), ('f', 4, I1), ('none', 5, I2), ('f', 6, I3)],
    'tap': [('f', 1, I1), ('tap', 2, I2), ('f', 3, I3), ('tap', 4, I1), ('f', 5, I2)],
    'tapm': [('f', 1, I1), ('tap', 2, I2), ('f', 3, I3), ('tap', 4, I1), ('tap', 5, I2), ('f', 6, I3)],
    'pass': [('two', 1, I1), ('catch', 1, 9), ('tap', 2, I2), ('f', 3, I3)],
}
REJ = {
    'line': [('catch', 1, 7), ('any', 2, I1), ('f', 3, I2), ('catch', 4, 8), ('f', 5, I3), ('catch', 6, 7), ('f', 7, I1), ('catch', 8, 8), ('catch', 9, 7)],
    'twice': [('any', 1, I1), ('catch', 2, 7), ('any', 3, I2), ('catch', 4, 8), ('tap', 5, I3), ('catch', 6, 7)],
    'nest': [('any', 1, I1), ('catch', 2, 7), ('f', 3, I2), ('f', 4, I3), ('catch', 5, 8), ('f', 6, I1)],
    'none': [('any0', 1, I1), ('catch', 2, 7), ('hold', C(5, 64)), ('f', 3, I2), ('catch', 4, 70), ('f', 5, I3), ('catch', 6, 70)],
    'hold': [('any', 1, I1), ('hold', C(5, 64)), ('f', 2, I2), ('catch', 3, 8), ('catch', 4, 7)],
    'multi': [('any2', 1, I1), ('catch', 2, 7), ('f', 3, I2), ('catch', 4, 71)],
}
HEAP = ('new', 'delete', 'use_after_delete')


def events(t, skip=HEAP + ('call',)):
    return [(e.name, tuple(e.targs), tuple(e.args)) for e in t.events if e.name not in skip]


def brief(evs):
    return ' ; '.join(f'{n}<{",".join(map(str, ta))}>(' + ', '.join(T.show(a, N) for a in args) + ')' for n, ta, args in evs)


def module():
    return core.compile_ir('promise', nsa_args=('-heap',))


def go(chk, mod, fn):
    ts = chk.explore(mod, fn).traces
    chk.ob(ts and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
    return ts


DONE = [('evt_done', (), ())]


def c17(chk):
    """Pipes of every kind of step (functions, void functions, promises with no, one or two values, taps, nested pipes, references), run
    synchronously, asynchronously, from a stored pipe and twice: the sequence of steps with their arguments equals the specified one, on every path."""
    mod = module()
    for name, pipe in PIPES.items():
        for how in ('sync', 'async', 'lvalue'):
            fn = f'wit_{how}_{name}'
            sim = Sim()
            for _ in range(2 if how == 'lvalue' else 1):
                sim.run(pipe, [X])
            want = sim.ev + ([('evt_note', (9,), (X, ZERO))] if how == 'lvalue' else []) + DONE
            for t in go(chk, mod, fn):
                chk.ob(events(t) == want, f'{fn}: every step runs once, in order, with what the one before it resolved to',
                       f'{brief(events(t))} instead of {brief(want)}', trace=t, names=N)
                if how == 'async':
                    chk.sample(f'{fn}: {t.show(N)}')
    pipe = [('two', 1, I1), ('f', 2, I2), ('tap', 3, I3), ('none', 4, I1), ('f', 5, I2)]
    sim = Sim()
    sim.run(pipe, [X])
    sim.run(pipe, [X])
    want = sim.ev + [('evt_note', (9,), (X, ZERO))] + DONE
    for t in go(chk, mod, 'wit_lvaluea_prom'):
        chk.ob(events(t) == want, 'wit_lvaluea_prom: a stored pipe runs the same every time and is left as it is', brief(events(t)), trace=t, names=N)
    for fn, pipe, args in (('wit_sync_ref', PIPES['plain'], [X]), ('wit_sync_single1', [('two', 1, I1)], [X]), ('wit_async_single1', [('two', 1, I1)], [X]),
                           ('wit_async_noarg', [('f', 1, X), ('f', 2, I1)], []), ('wit_sync_noarg', [('f', 1, X), ('f', 2, I1)], [])):
        sim = Sim()
        sim.run(pipe, args)
        for t in go(chk, mod, fn):
            chk.ob(events(t) == sim.ev + DONE, f'{fn}: every step runs once, in order, with what the one before it resolved to',
                   f'{brief(events(t))} instead of {brief(sim.ev + DONE)}', trace=t, names=N)
    y = T.binop('mul', 64, plus(X, 1), C(3, 64))
    for t in go(chk, mod, 'wit_sync_refarg'):
        got = events(t)
        ok = len(got) == 2 and got[0][:2] == ('evt_note', (1,)) and got[0][2][0] == C(1, 64) and got[0][2][1] == got[1][2][0]
        ok = ok and {T.evaluate(got[1][2][0], {X: C(v, 64)}) for v in (0, 5)} == {C(3, 64), C(18, 64)}
        chk.ob(ok, 'wit_sync_refarg: values resolved as references go through steps and taps as references', f'{brief(got)} instead of {T.show(y)}', trace=t)
    # a step that has not answered yet holds back the rest; its answer continues it
    for h in range(4):
        fn = f'wit_late_{h}'
        sim = Sim()
        a = sim.step(1, I1, [X])
        sim.step(2, ZERO, [a])
        want = sim.ev + [('evt_resume', (), ())]
        if h == 0:
            want.append(('evt_step', (3,), (I2, C(1, 32), I3, ZERO)))
        if h == 2:
            want.append(('evt_caught', (4,), (C(7, 32), I3)))
        for t in go(chk, mod, fn):
            chk.ob(events(t) == want + DONE, f'{fn}: later steps run when a pending step answers, and not before', brief(events(t)), trace=t, names=N)
    sim = Sim()
    sim.step(1, ZERO, [X])
    sim.ev.append(('evt_resume', (), ()))
    a = sim.step(2, I1, [I3])
    sim.step(3, ZERO, [a])
    sim.ev.append(('evt_resume', (), ()))
    sim.step(4, I2, [plus(I3, 1)])
    for t in go(chk, mod, 'wit_late_two'):
        chk.ob(events(t) == sim.ev + DONE, 'wit_late_two: later steps run when a pending step answers, and not before', brief(events(t)), trace=t, names=N)
    # loops start over with what the last step resolved to
    sim = Sim()
    y = I2
    a = sim.step(1, I1, [X])
    for n in range(2):
        sim.step(2, ZERO, [a])
        sim.ev.append(('evt_resume', (), ()))
        b = sim.step(3, I1, [plus(y, n)])
        a = sim.step(1, I1, [b])
    sim.step(2, ZERO, [a])
    sim.ev.append(('evt_resume', (), ()))
    for t in go(chk, mod, 'wit_loop'):
        chk.ob(events(t) == sim.ev + DONE, 'wit_loop: a loop starts over with what its last step resolved to', f'{brief(events(t))} instead of {brief(sim.ev)}', trace=t, names=N)

    sim = Sim()
    a = sim.step(1, I1, [X])
    sim.step(2, ZERO, [a])
    sim.ev.append(('evt_resume', (), ()))
    b = sim.step(3, I1, [I2])
    a = sim.step(1, I1, [b])
    sim.step(2, ZERO, [a])
    sim.ev.append(('evt_resume', (), ()))
    for t in go(chk, mod, 'wit_loop_call'):
        chk.ob(events(t) == sim.ev + DONE, 'wit_loop_call: a loop starts over with what its last step resolved to', f'{brief(events(t))} instead of {brief(sim.ev)}', trace=t, names=N)

    # what is resolved as a value arrives as one, references and constants as such
    def cat(sim, i, *cs):
        for n, (c, v) in enumerate(cs):
            sim.ev.append(('evt_cat', (i,), (C(n, 32), C(c, 32), v)))

    def step(sim, i, id, *cs):
        cat(sim, i, *cs)
        return sim.step(i, id, [v for _, v in cs])
    word = 'values resolved arrive as values, references as references, constants as constants'
    for sfx, c in (('val', 2), ('ref', 0), ('con', 1)):
        for how in 'sa':
            fn = f'wit_c{how}_{sfx}'
            sim = Sim()
            a = step(sim, 1, I1, (c, X))
            a = step(sim, 2, I2, (2, a))
            a = step(sim, 3, I3, (2, a), (0, plus(a, 1)))
            a = step(sim, 4, I1, (2, a))
            a = step(sim, 5, I2, (1, a))
            a = sim.step(6, I1, [a])
            a = step(sim, 7, I3, (2, a))
            a = step(sim, 8, I2, (2, a), (0, plus(a, 1)))
            want = sim.ev + ([('evt_note', (9,), (X, ZERO))] if c < 2 else []) + DONE
            for t in go(chk, mod, fn):
                chk.ob(events(t) == want, f'{fn}: {word}', f'{brief(events(t))} instead of {brief(want)}', trace=t, names=N)
    for sfx, c in (('val', 2), ('ref', 0)):
        fn = f'wit_cl_{sfx}'
        sim = Sim()
        arg = (c, X)
        for n in range(2):
            a = step(sim, 1, I1, arg)
            a = step(sim, 2, I1, (2, a), (0, plus(a, 1)))
            sim.step(3, ZERO, [a])
            sim.ev.append(('evt_resume', (), ()))
            if n == 0:
                arg = (2, step(sim, 4, I1, (2, I2)))
        want = sim.ev + ([('evt_note', (9,), (X, ZERO))] if c < 2 else []) + DONE
        for t in go(chk, mod, fn):
            chk.ob(events(t) == want, f'{fn}: {word}, round after round', f'{brief(events(t))} instead of {brief(want)}', trace=t, names=N)
    # steps that own something: pipes and steps that are used again are left as they are
    pipe = [('f', 1, I1), ('f', 2, I2), ('tap', 3, I3), ('f', 4, I1), ('f', 5, I2), ('f', 6, I3)]
    for fn in ('wit_keep_sync', 'wit_keep_async'):
        sim = Sim()
        for _ in range(3):
            sim.run(pipe, [X])
        for t in go(chk, mod, fn):
            chk.ob(events(t) == sim.ev + DONE, f'{fn}: a stored pipe keeps its steps and runs the same every time', f'{brief(events(t))} instead of {brief(sim.ev)}', trace=t, names=N)
    for fn in ('wit_keep_step', 'wit_keep_stepa'):
        sim = Sim()
        sim.run([('f', 1, I1), ('f', 2, I2), ('tap', 3, I3), ('f', 2, I2)], [X])
        want = sim.ev + [('evt_note', (i,), (v, ZERO)) for i, v in ((1, I1), (2, I2), (3, I3))] + DONE
        for t in go(chk, mod, fn):
            chk.ob(events(t) == want, f'{fn}: a step that is put into a pipe by name stays as it is', f'{brief(events(t))} instead of {brief(want)}', trace=t, names=N)
    sim = Sim()
    for _ in range(4):
        sim.run([('f', 1, I1)], [X])
    for t in go(chk, mod, 'wit_keep_single'):
        chk.ob(events(t) == sim.ev + DONE, 'wit_keep_single: a stored step runs the same every time', brief(events(t)), trace=t, names=N)


REJPRE = r'''
#include "wit.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
using namespace wit;
struct fn1 { template <typename ...A> int operator()(A&&...) const { return 1; } };
struct rej { template <typename R, typename ...A> void operator()(R&& r, A&&...) const { r.reject(tval<7>(1)); } };
template <int i> struct on { void operator()(tval<i> const&) const { } };
struct on2 { void operator()(tval<7> const&, int) const { } };
'''


def c18(chk):
    """Pipes with steps that resolve, reject with one of two types (or two values), terminate or never answer: which steps run, which handler
    is called with what, and what follows, compared with the specification for every combination of outcomes; exceptions of try_ steps on every
    throwing path; unhandled rejections by compile-fail witnesses."""
    mod = module()
    for name, pipe in REJ.items():
        for how in ('rejs', 'reja'):
            fn = f'wit_{how}_{name}'
            ts = go(chk, mod, fn)
            picks = [('res', 'evt_choose', (s[1],), 0) for s in pipe if s[0] in ('any', 'any2', 'any0')]
            n = 0
            for vals in itertools.product(range(5), repeat=len(picks)):
                env = {p: C(v, 32) for p, v in zip(picks, vals)}
                live = [t for t in ts if T.allows(t.facts, env)]
                chk.ob(bool(live), f'{fn}: every outcome is handled', str(vals))
                sim = Sim({p: v for p, v in zip(picks, vals)})
                sim.run(pipe, [X])
                for t in live:
                    n += 1
                    chk.ob(events(t) == sim.ev + DONE, f'{fn}: a rejection skips to the first handler that takes it, calls that once and ends the pipe',
                           f'{brief(events(t))} instead of {brief(sim.ev + DONE)} for outcomes {vals}', trace=t, names=N)
            if how == 'reja':
                for t in ts[:2]:
                    chk.sample(f'{fn}: {t.show(N)}')
    takes = {0: (0, 1, 3, 4), 1: (0, 3, 4), 2: (0, 2, 3, 4)}
    for how, cat, k in itertools.product('sa', range(3), range(5)):
        fn = f'wit_cat{how}_{cat}_{k}'
        sim = Sim()
        sim.step(1, I1, [X])
        took = k in takes[cat]
        sim.ev.append(('evt_caught', (1,), (C(k, 32), X)) if took else ('evt_caught', (2,), (C(9, 32), X)))
        left = plus(X, 1) if took and k == 1 else C(GONE, 64) if took and cat == 2 and k == 3 else X
        for t in go(chk, mod, fn):
            chk.ob(events(t) == sim.ev + [('evt_note', (9,), (left, ZERO))] + DONE, f'{fn}: the first handler that can be called with what was rejected takes it, itself and not a copy',
                   f'{brief(events(t))} instead of {brief(sim.ev)}', trace=t, names=N)
    for fn, void in (('wit_try_fn', 0), ('wit_try_void', 1), ('wit_trya_fn', 0)):
        ts = go(chk, mod, fn)
        threw = 0
        for t in ts:
            sim = Sim()
            a = sim.step(1, I1, [X])
            r = sim.step(2, I2, [a], 'evtx_step')
            if any(k[0] == 'threw' for k in t.facts):
                threw += 1
                sim.ev.append(('evt_caught', (4,), (ZERO, ZERO)) if False else ('evt_caught', (4,), (C(0, 32), ZERO)))
                word = 'an exception of a tried step becomes a rejection, whatever its type'
            else:
                sim.step(3, I3, [] if void else [r])
                word = 'a tried step that does not throw resolves as usual'
            chk.ob(events(t) == sim.ev + DONE, f'{fn}: {word}', f'{brief(events(t))} instead of {brief(sim.ev + DONE)}', trace=t, names=N)
        chk.ob(threw >= 1 and threw < len(ts), f'{fn}: the step may throw or not', str(len(ts)))
    # a handler is part of its pipe, with what it owns
    for fn, named, loop in (('wit_own_catch', 0, 0), ('wit_own_named', 1, 0), ('wit_own_const', 0, 0), ('wit_own_loop', 0, 1)):
        sim = Sim()
        sim.step(1, ZERO, [X])
        if named:
            sim.ev.append(('evt_note', (8,), (I1, ZERO)))
        sim.ev.append(('evt_resume', (), ()))
        if loop:
            a = sim.step(2, I1, [I2])
            a = sim.step(4, I1, [a])
            sim.step(1, ZERO, [a])
            sim.ev.append(('evt_resume', (), ()))
        sim.ev += [('evt_caught', (3,), (C(7, 32), I2)), ('evt_note', (3,), (I1, ZERO))]
        if named:
            sim.ev.append(('evt_note', (9,), (X, ZERO)))
        for t in go(chk, mod, fn):
            chk.ob(events(t) == sim.ev + DONE, f'{fn}: a handler belongs to its pipe, as it was when it was put there', f'{brief(events(t))} instead of {brief(sim.ev)}', trace=t, names=N)
    # which exception it is that is rejected with
    std = ['_ZTISt9exception']
    kinds = {'std::exception': std, 'std::runtime_error': std + ['_ZTISt13runtime_error'], 'std::logic_error': std + ['_ZTISt11logic_error'],
             'std::out_of_range': std + ['_ZTISt11logic_error', '_ZTISt12out_of_range'], 'std::bad_alloc': std + ['_ZTISt9bad_alloc'], 'int': ['_ZTIi'], 'a class of its own': []}

    def may_be(t, bases):
        """whether the path can be taken when an exception with these bases is thrown"""
        for k, v in t.facts.items():
            if k[0] == 'icmp' and k[1] in ('eq', 'ne'):
                g = [x for x in k[2:] if x[0] == 'pure' and x[1] == 'llvm.eh.typeid.for']
                if g and (g[0][3][0][1] in bases) != ((k[1] == 'eq') == bool(v)):
                    return False
        return True
    for name in ('sync', 'syncv', 'async', 'asyncv'):
        fn = f'wit_tryx_{name}'
        ts = [t for t in go(chk, mod, fn) if any(k[0] == 'threw' for k in t.facts)]
        for kind, bases in kinds.items():
            live = [t for t in ts if may_be(t, bases)]
            chk.ob(bool(live), f'{fn}: a thrown {kind} is rejected', 'no path')
            for t in live:
                es = t.evs('evt_r_exc')
                chk.ob(len(es) == 1, f'{fn}: a thrown {kind} is rejected once', t.show(N), trace=t, names=N)
                if bases[:1] == std and es:
                    chk.ob(T.split_ptr(es[0].args[0])[0][:2] == ('ext', '__cxa_begin_catch'), f'{fn}: a thrown {kind} is what is rejected with, itself', es[0].show(N), loc=es[0].loc, trace=t, names=N)
    # unhandled rejections do not compile
    cases = []
    for run in ('run_sync', 'run_async', 'run_async_loop'):
        for what, steps, ok in (('unhandled', 'nbdl::promise(rej{})', False), ('unhandled at the end', 'fn1{}, nbdl::promise(rej{})', False),
                                ('handled by a handler of another type only', 'fn1{}, nbdl::promise(rej{}), nbdl::catch_(on<8>{})', False),
                                ('handled before it happens only', 'nbdl::catch_(on<7>{}), nbdl::promise(rej{}), fn1{}', False),
                                ('handled by a handler of more values only', 'nbdl::promise(rej{}), nbdl::catch_(on2{}), fn1{}', False),
                                ('handled', 'nbdl::promise(rej{}), nbdl::catch_(on<7>{})', True), ('handled later', 'nbdl::promise(rej{}), fn1{}, nbdl::catch_(on<8>{}), nbdl::catch_(on<7>{}), fn1{}', True)):
            cases.append((run, what, f'{REJPRE}\nvoid go() {{ nbdl::{run}(nbdl::pipe({steps}), 1); }}\n', ok))
    for (run, what, _, ok), (good, err) in zip(cases, core.pmap(lambda c: core.syntax_check(c[2]), cases)):
        chk.type_ob(good == ok, f'{run}: a rejection {what} {"compiles" if ok else "is refused at compile time"}', err[:300] if ok else 'it compiles')


def heap_rules(chk, fn, t, runs, freed, anywhere=False):
    new, dele = t.evs('new'), t.evs('delete')
    uaf = t.evs('use_after_delete')
    chk.ob(not uaf, f'{fn}: nothing of a finished run is used after its release', t.show(N), loc=uaf[0].loc if uaf else None, trace=t, names=N)
    chk.ob(len(new) == runs, f'{fn}: {"every asynchronous run is kept alive by one allocation" if runs else "a synchronous run allocates nothing"}', t.show(N), trace=t, names=N)
    want = sorted(repr(e.res) for e in new)[:len(new)] if freed else []
    got = sorted(repr(e.args[0]) for e in dele)
    chk.ob(got == want, f'{fn}: {"a finished run is released once" if freed else "a run that is not finished is not released"}', t.show(N), trace=t, names=N)
    if dele and not anywhere:
        i = max(n for n, e in enumerate(t.events) if e.name == 'delete')
        after = [e for e in t.events[i + 1:] if e.name.startswith('evt_') and e.name not in ('evt_done', 'evt_note')]
        chk.ob(not after, f'{fn}: a run is released after its last step', t.show(N), trace=t, names=N)


def c19(chk):
    """Allocation and release on every path of asynchronous runs and loops: one allocation per run, released exactly once when the pipe resolves
    to its end, terminates or handles a rejection, never before, and no access to it afterwards; synchronous runs allocate nothing."""
    mod = module()
    for name in PIPES:
        for t in go(chk, mod, f'wit_async_{name}'):
            heap_rules(chk, f'wit_async_{name}', t, 1, True)
        for t in go(chk, mod, f'wit_sync_{name}'):
            heap_rules(chk, f'wit_sync_{name}', t, 0, False)
    for fn in ('wit_async_single1', 'wit_async_noarg'):
        for t in go(chk, mod, fn):
            heap_rules(chk, fn, t, 1, True)
    for t in go(chk, mod, 'wit_lvaluea_prom'):
        heap_rules(chk, 'wit_lvaluea_prom', t, 2, True, anywhere=True)
    for name, pipe in REJ.items():
        fn = f'wit_reja_{name}'
        ts = go(chk, mod, fn)
        picks = [('res', 'evt_choose', (s[1],), 0) for s in pipe if s[0] in ('any', 'any2', 'any0')]
        for vals in itertools.product(range(5), repeat=len(picks)):
            env = {p: C(v, 32) for p, v in zip(picks, vals)}
            sim = Sim({p: v for p, v in zip(picks, vals)})
            sim.run(pipe, [X])
            for t in ts:
                if T.allows(t.facts, env):
                    heap_rules(chk, fn, t, 1, sim.state != 'waiting')
        for t in go(chk, mod, f'wit_rejs_{name}'):
            heap_rules(chk, f'wit_rejs_{name}', t, 0, False)
    for fn in ('wit_trya_fn',):
        for t in go(chk, mod, fn):
            heap_rules(chk, fn, t, 1, True)
            chk.sample(f'{fn}: {t.show(N)}')
    for h in range(4):
        for t in go(chk, mod, f'wit_late_{h}'):
            heap_rules(chk, f'wit_late_{h}', t, 1, h != 3)
    for fn in ('wit_late_two', 'wit_lazy_0', 'wit_lazy_1', 'wit_lazy_2', 'wit_lazy_never', 'wit_loop', 'wit_loop_rej', 'wit_loop_lazy', 'wit_loop_hold', 'wit_loop_call',
               'wit_ca_val', 'wit_ca_ref', 'wit_ca_con', 'wit_cl_val', 'wit_cl_ref', 'wit_keep_stepa', 'wit_own_catch', 'wit_own_named', 'wit_own_const', 'wit_own_loop',
               'wit_tryx_async', 'wit_tryx_asyncv'):
        for t in go(chk, mod, fn):
            heap_rules(chk, fn, t, 1, True)
            chk.sample(f'{fn}: {t.show(N)}')
    for t in go(chk, mod, 'wit_keep_async'):
        heap_rules(chk, 'wit_keep_async', t, 3, True, anywhere=True)
    for t in go(chk, mod, 'wit_keep_single'):
        heap_rules(chk, 'wit_keep_single', t, 1, True, anywhere=True)
    for fn in ('wit_cs_val', 'wit_cs_ref', 'wit_cs_con', 'wit_keep_sync', 'wit_keep_step', 'wit_tryx_sync'):
        for t in go(chk, mod, fn):
            heap_rules(chk, fn, t, 0, False)
    for t in go(chk, mod, 'wit_loop_lvalue'):
        heap_rules(chk, 'wit_loop_lvalue', t, 2, True, anywhere=True)


def c20(chk):
    """Objects made by hold_lazy: constructed once when their step runs, destroyed exactly once when the run ends and before its memory is
    released, never moved, and not destroyed if never made; a held value is one object owned by the promise, the original stays as it is."""
    mod = module()
    for fn, t in [(f, t) for f in ('wit_hold', 'wit_keep_hold') for t in go(chk, mod, f)]:
        got = events(t)
        chk.ob(got == [('evt_note', (1,), (X, ZERO)), ('evt_note', (2,), (plus(X, 1), ZERO)), ('evt_note', (3,), (X, ZERO))],
               f'{fn}: every later step sees the one held value, a copy of the original', brief(got), trace=t, names=N)
    for t in go(chk, mod, 'wit_loop_hold'):
        got = [e for e in events(t) if e[0] == 'evt_note']
        chk.ob(got == [('evt_note', (1,), (plus(X, n) if n else X, ZERO)) for n in range(3)] + [('evt_note', (3,), (X, ZERO))],
               'wit_loop_hold: every pass of a loop sees the one held value as it was left', brief(got), trace=t, names=N)
    for h in ('0', '1', '2', 'never'):
        fn = f'wit_lazy_{h}'
        for t in go(chk, mod, fn):
            made = [e.args[0] for e in t.evs('evt_note') if e.targs[0] == 10]
            kill = [(n, e.args[0]) for n, e in enumerate(t.events) if e.name == 'evt_kill' and e.targs[0] == 1]
            moved = [e for e in t.evs('evt_kill') if e.targs[0] == 2]
            chk.ob(not moved, f'{fn}: a lazily made object never moves', t.show(N), trace=t, names=N)
            want = [] if h == 'never' else [('res', 'evt_step', (1,), 0)]
            chk.ob(made == want, f'{fn}: the object is made when its step runs, once', t.show(N), trace=t, names=N)
            chk.ob([v for _, v in kill] == made, f'{fn}: an object made is destroyed exactly once', t.show(N), trace=t, names=N)
            d = [n for n, e in enumerate(t.events) if e.name == 'delete']
            last = max([n for n, e in enumerate(t.events) if e.name in ('evt_step', 'evt_caught')], default=-1)
            if kill and d:
                chk.ob(last < kill[0][0] < d[0], f'{fn}: it lives until the run ends', t.show(N), trace=t, names=N)
            chk.sample(f'{fn}: {t.show(N)}')
    for t in go(chk, mod, 'wit_loop_lazy'):
        fn = 'wit_loop_lazy'
        made = [e.args[0] for e in t.evs('evt_note') if e.targs[0] == 10]
        kill = [e.args[0] for e in t.evs('evt_kill') if e.targs[0] == 1]
        chk.ob(len(made) == 3 and len(set(map(repr, made))) == 3, f'{fn}: the object is made each time its step runs', t.show(N), trace=t, names=N)
        chk.ob(len(set(map(repr, kill))) == len(kill) and all(k in made for k in kill), f'{fn}: no object is destroyed twice', t.show(N), trace=t, names=N)
        chk.ob(bool(made) and kill[-1:] == made[-1:], f'{fn}: the object held when the loop ends is destroyed', t.show(N), trace=t, names=N)
        chk.ob(sorted(map(repr, kill)) == sorted(map(repr, made)), f'{fn}: every object made is destroyed', t.show(N), trace=t, names=N)


CHECKS = {'C17': (c17, 50), 'C18': (c18, 150), 'C19': (c19, 150), 'C20': (c20, 15)}
