"""Values read from and written to JSON."""
import itertools
from sa import core, terms as T
from sa.terms import C

ROOT = ('res', 'evt_r_parse', (), 0)
TY = {'jv_type': 'i32', 'jv_integral': 'i1', 'jv_fits': 'i1', 'jv_size': 'i32', 'jv_member': 'i64', 'jv_elem': 'i64', 'jv_as_int': 'i32', 'jv_as_uint': 'i32',
      'jv_as_real': 'double', 'jv_as_bool': 'i1', 'jv_str': 'ptr', 'jv_len': 'i64', 'jv_parsed': 'i1', 'b64_ok': 'i1', 'b64_bytes': 'i64', 'b64_text': 'ptr', 'b64_size': 'i64'}


def f(name, *args):
    return ('pure', name, TY[name], args)


def member(h, name):
    return f('jv_member', h, ('name', name))


def elem(h, i):
    return f('jv_elem', h, C(i, 32))


# what a document has to look like: ('int',) ... ('tup', [..]) ('obj', {name: ..}) ('list', ..) ('var', [..alternatives, None for empty])
INT, UINT, CHAR, BOOL, REAL, ENUM, STR, BUF = ('int',), ('uint',), ('char',), ('bool',), ('real',), ('enum',), ('str',), ('buf',)
INNER = ('obj', {'p': INT, 'q': STR})
VAR = ('var', [None, STR, INT, INNER])
SCHEMA = {
    'bool': BOOL, 'char': CHAR, 'int': INT, 'uint': UINT, 'real': REAL, 'enum': ENUM, 'tiny': ('enum', 255), 'level': ('enum', (1 << 31) - 1), 'step': ('enum', 127), 'str': STR, 'buf': BUF,
    'tup0': ('tup', []), 'tup1': ('tup', [INT]), 'tup2': ('tup', [INT, STR]), 'tup3': ('tup', [STR, STR, STR]),
    'tup4': ('tup', [INT, INT, ('tup', [INT, INT]), INT]), 'tupe': ('tup', [INT, STR, INT]),
    'inner': INNER, 'flat': ('obj', {'a': INT, 'b': STR, 'c': UINT, 'd': BUF}), 'one': ('obj', {'only': INT}),
    'deep': ('obj', {'x': INNER, 'xs': ('list', INT), 'y': INNER, 'z': STR}),
    'bag': ('list', INT), 'bags': ('list', STR), 'bagi': ('list', INNER), 'bagt': ('list', ('tup', [INT, STR])), 'bagb': ('list', ('list', INT)),
    'var': VAR, 'var1': VAR, 'holder': ('obj', {'before': INT, 'v': VAR, 'after': INT}),
}


ROUNDS = {'bagb': 3, 'bagi': 3, 'bagt': 3, 'deep': 2}
OUT_OF_MEMORY = ('noreturn:_ZSt20__throw_length_errorPKc', 'noreturn:_ZSt17__throw_bad_allocv', 'noreturn:_ZSt28__throw_bad_array_new_lengthv')


class Doc:
    """what a path knows about the document it read"""
    def __init__(self, mod, t):
        self.mod, self.t = mod, t
        self.memo = {}
        self.facts = {self.canon(k): v for k, v in t.facts.items() if k[0] != 'threw'}
        self.sub = {k: set(T.subterms(k)) for k in self.facts}

    def canon(self, t):
        if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
            return t
        if t in self.memo:
            return self.memo[t]
        r = t
        if t[0] == 'pure':
            args = [self.canon(a) for a in t[3]]
            if t[1] in ('jv_member', 'jv_has') and len(args) == 2:
                b, o, v = T.split_ptr(args[1])
                by = self.mod.globals.get(b[1], {}).get('bytes') if b[0] == 'g' else None
                if by is not None and not v:
                    args[1] = ('name', bytes(by[o:]).split(b'\0')[0].decode('latin1'))
            r = ('pure', t[1], t[2], tuple(args))
        elif t[0] == 'icmp':
            r = ('icmp', t[1], self.canon(t[2]), self.canon(t[3]))
        elif t[0] == 'op':
            r = ('op', t[1], t[2], self.canon(t[3]), self.canon(t[4]))
        elif t[0] == 'cast':
            r = ('cast', t[1], t[2], t[3], self.canon(t[4]))
        elif t[0] == 'sel':
            r = ('sel', self.canon(t[1]), self.canon(t[2]), self.canon(t[3]))
        elif t[0] == 'ptr':
            r = T.ptr(self.canon(t[1]), t[2], tuple((self.canon(v), s) for v, s in t[3]))
        self.memo[t] = r
        return r

    def decide(self, atoms, cond):
        """True/False when the condition over the atoms {term: [values]} is decided on this path, None when not; 'none' when no values fit"""
        names = list(atoms)
        facts = {k: v for k, v in self.facts.items() if any(a in self.sub[k] for a in names)}
        out = set()
        for vs in itertools.product(*[atoms[a] for a in names]):
            env = dict(zip(names, vs))
            if T.allows(facts, env):
                out.add(bool(cond(*[e[1] for e in vs])))
        return 'none' if not out else out.pop() if len(out) == 1 else None

    def kind(self, h, pred):
        return self.decide({f('jv_type', h): [C(k, 32) for k in range(8)]}, pred)

    def integral(self, h):
        return self.decide({f('jv_type', h): [C(k, 32) for k in range(8)], f('jv_integral', h): [T.FALSE, T.TRUE]}, lambda k, i: k in (1, 2) or k == 3 and i)

    def size(self, h, n):
        return self.decide({f('jv_size', h): [C(k, 32) for k in list(range(12)) + [1000, (1 << 32) - 1]]}, lambda k: k == n)

    def true(self, t):
        return self.decide({t: [T.FALSE, T.TRUE]}, lambda b: b)

    def number(self, h, what):
        return self.both(self.integral(h), self.true(f('jv_fits', h, C(what, 32))))

    NUMBERS = {v & 0xffffffff for k in range(33) for d in range(-3, 4) for v in ((1 << k) + d, -(1 << k) + d)} | {v & 0xffffffff for v in range(-300, 301)}

    def within(self, v, lo, hi):
        """whether the number v lies in lo..hi, tried at and around every power of two"""
        return self.decide({v: [C(x, 32) for x in self.NUMBERS]}, lambda x: lo <= (x - (1 << 32) if lo < 0 and x >> 31 else x) <= hi)

    @staticmethod
    def both(*xs):
        return False if any(x is False for x in xs) else True if all(x is True for x in xs) else None

    def length(self, h):
        for n in range(8):
            if self.size(h, n) is True:
                return n
        return None

    def which(self, idt, n):
        """the id read from there: 0..n-1, 'other' or None"""
        r = [k for k in range(n) if self.decide({idt: [C(v, 32) for v in [*range(12), (1 << 32) - 1, 1 << 31, 77]]}, lambda v: v == k) is True]
        if r:
            return r[0]
        if self.decide({idt: [C(v, 32) for v in [*range(12), (1 << 32) - 1, 1 << 31, 77]]}, lambda v: v < n) is False:
            return 'other'
        return None

    def check(self, s, h, out, old=None):
        """whether the document at h is what the schema asks for (three-valued); appends what is read from it to out"""
        k = s[0]
        if k in ('int', 'char'):
            v = f('jv_as_int', h)
            out.append((f'evt_r_{k}', (v if k == 'int' else T.cast('trunc', 32, 8, v),)))
            return self.both(self.number(h, 0), k == 'int' or self.within(v, -128, 127))
        if k in ('uint', 'enum'):
            v = f('jv_as_uint', h)
            top = s[1] if len(s) > 1 else (1 << 32) - 1
            out.append((f'evt_r_{k}', (v,)) if top >> 8 else ('evt_r_char', (T.cast('trunc', 32, 8, v),)))
            return self.both(self.number(h, 1), len(s) == 1 or self.within(v, 0, top))
        if k == 'bool':
            out.append(('evt_r_bool', (f('jv_as_bool', h),)))
            return self.kind(h, lambda k: k == 5)
        if k == 'real':
            out.append(('evt_r_real', (f('jv_as_real', h),)))
            return self.kind(h, lambda k: k in (1, 2, 3))
        if k == 'str':
            out.append(('evt_r_str', (f('jv_str', h), f('jv_len', h))))
            return self.kind(h, lambda k: k == 4)
        if k == 'buf':
            p = (f('jv_str', h), f('jv_len', h))
            out.append(('evt_r_buf', (f('b64_bytes', *p),)))
            return self.both(self.kind(h, lambda k: k == 4), self.true(f('b64_ok', *p)))
        if k == 'msg':      # [(part, schema or None when it carries nothing)]: as a sequence of those that carry something
            n = sum(x is not None for _, x in s[1])
            r, i = [], 0
            if n > 1:
                r = [self.kind(h, lambda k: k == 6), self.size(h, n)]
            for p, x in s[1]:
                out.append(('evt_r_part', (C(p, 32),)))
                if x is not None:
                    r.append(self.check(x, h if n == 1 else elem(h, i), out))
                    i += 1
            return self.both(*r)
        if k == 'tup':
            if not s[1]:
                return True
            if len(s[1]) == 1:
                return self.check(s[1][0], h, out)
            r = [self.kind(h, lambda k: k == 6), self.size(h, len(s[1]))]
            return self.both(*r, *[self.check(x, elem(h, i), out) for i, x in enumerate(s[1])])
        if k == 'obj':
            return self.both(self.kind(h, lambda k: k in (0, 7)), *[self.check(x, member(h, n), out) for n, x in s[1].items()])
        if k == 'list':
            n = self.length(h)
            out.append(('evt_r_count', (C(n, 64) if n is not None else None,)))
            r = [self.check(s[1], elem(h, i), out) for i in range(6 if n is None else n)]
            return self.both(self.kind(h, lambda k: k == 6), True if n is not None else None, *[x if n is not None else False if x is False else None for x in r])
        if k == 'var':
            alone = self.integral(h)
            pair = self.both(self.kind(h, lambda k: k == 6), self.size(h, 2))
            if alone is True:
                idt, w = f('jv_as_int', h), self.both(alone, self.true(f('jv_fits', h, C(0, 32))))
            elif pair is True:
                idt, w = f('jv_as_int', elem(h, 0)), self.number(elem(h, 0), 0)
            else:
                return False if alone is False and pair is False else None
            n = self.which(idt, len(s[1]))
            if w is not True or n is None:
                return w if w is False else None
            if n == 'other':
                out.append(old or ('evt_r_id', (C(0, 32),)))
                if old:
                    out.append(old[1])
                return True
            out.append(('evt_r_id', (C(n, 32),)))
            if s[1][n] is None:
                return alone is True
            if pair is not True:
                return False
            return self.check(s[1][n], elem(h, 1), out)
        raise KeyError(k)


def tree(d, t, v, depth=0):
    v = d.canon(v)
    if depth > 8:
        return ('deep',)
    if v in (C(0, 64), ('null',), ('zero',)):
        return ('null',)
    if v[0] == 'heap':
        kind = [e.args[1] for e in t.evs('evt_r_node') if e.args[0] == v]
        kids = [e for e in t.events if e.name in ('evt_r_member', 'evt_r_append') and e.args[0] == v]
        at = lambda p: tree(d, t, t.mem.get((p, 0, ()), (8, ('undef',)))[1], depth + 1)
        if kind == [C(6, 32)] and all(e.name == 'evt_r_append' for e in kids):
            return ('arr', [at(e.args[1]) for e in kids])
        if kind == [C(7, 32)] and all(e.name == 'evt_r_member' for e in kids):
            names = [d.canon(('pure', 'jv_member', '', (C(0, 64), e.args[1])))[3][1][1] for e in kids]
            if len(set(names)) == len(names):
                return ('obj', dict(zip(names, (at(e.args[2]) for e in kids))))
        return ('mixed', str(kind), [e.show() for e in kids])
    if v[0] == 'pure':
        a = v[3]
        if v[1] == 'jv_mk_uint':
            return ('int', a[0])
        return ({'jv_mk_int': 'int', 'jv_mk_real': 'real', 'jv_mk_bool': 'bool', 'jv_mk_str': 'str'}.get(v[1], v[1]), *a)
    return ('value', v)


def shown(x):
    if isinstance(x, dict):
        return '{' + ', '.join(f'{k}: {shown(v)}' for k, v in x.items()) + '}'
    if isinstance(x, list):
        return '[' + ', '.join(shown(v) for v in x) + ']'
    if isinstance(x, tuple):
        if x and x[0] in ('obj', 'arr'):
            return shown(x[1])
        if x and x[0] in ('int', 'str', 'real', 'bool'):
            return x[0] + '(' + ', '.join(T.show(v) if isinstance(v, tuple) else str(v) for v in x[1:]) + ')'
    return str(x)


def reading(sub, mod, name, s):
    fn = f'wit_r_{name}'
    ex = sub.explore(mod, fn, unroll=ROUNDS.get(name, 5), max_cut=True, max_steps=3000000)
    complete = 0
    for t in ex.traces:
        if t.kind == 'cut':
            continue
        d = Doc(mod, t)
        es = [e for e in t.events if e.name not in ('new', 'delete', 'call')]
        ps = [e for e in es if e.name == 'evt_r_parse']
        sub.ob(len(ps) == 1 and es[0] is ps[0] and T.binop('sub', 64, ps[0].args[1], ps[0].args[0]) == ('load', ('arg', 0), 8, 8, 0, ()),
               f'{fn}: the whole text is parsed, once', t.show()[:300], trace=t)
        parsed = d.true(f('jv_parsed', ROOT))
        want = []
        old = None
        if name == 'var1':
            old = ('evt_r_id', (C(1, 32),))
        ok = d.check(s, ROOT, want, old)
        if name == 'var1' and want and want[0] is old:
            want = [old, ('evt_r_str', (('arg', 1), ('arg', 2)))]
        if t.kind == 'ret':
            complete += 1
            sub.ob(parsed is True, f'{fn}: a text that does not parse is refused', t.show()[:300], trace=t)
            sub.ob(ok is True, f'{fn}: a document is read only if every value it has to have is there, of its kind', t.show()[:600], trace=t)
            got = [(e.name, tuple(d.canon(a) for a in e.args)) for e in es if e.name not in ('evt_r_parse', 'evt_r_option')]
            sub.ob(ok is not True or got == want, f'{fn}: every value read is the one at its name or position in the document',
                   f'{[(a, [T.show(x) for x in b]) for a, b in got if (a, b) not in want][:4]} instead of {[(a, [T.show(x) for x in b]) for a, b in want if (a, b) not in got][:4]}'[:900], trace=t)
        else:
            sub.ob(t.kind.startswith('noreturn:__cxa_throw') or t.kind == 'throw', f'{fn}: what is not read is refused with an exception', t.kind, trace=t)
            sub.ob(parsed is False or ok is False, f'{fn}: a document is refused only if a value is missing or of another kind', t.show()[:300], trace=t)
    sub.ob(complete > 0, f'{fn}: some document is read')


def writing(sub, mod, name, want):
    fn = f'wit_w_{name}'
    ts = sub.explore(mod, fn, unroll=8).traces
    sub.ob(bool(ts), f'{fn}: completes')
    for t in ts:
        if t.kind in OUT_OF_MEMORY:
            continue
        if not sub.ob(t.kind == 'ret', f'{fn}: every value can be written', t.show()[:300], trace=t):
            continue
        d = Doc(mod, t)
        ws = t.evs('evt_r_write')
        if not sub.ob(len(ws) == 1, f'{fn}: one document is written', t.show()[:300], trace=t):
            continue
        got = tree(d, t, ws[0].args[0])
        sub.ob(got == want, f'{fn}: the document has every value at its name or position', f'{shown(got)} instead of {shown(want)}'[:900], trace=t)
        sub.sample(f'{fn}: {shown(got)}'[:300])


def c24(chk):
    """Reading a document of unknown shape into every kind of value (arrays of up to 5 elements): a path completes exactly when every value
    on it is of the kind asked for, and every member holds what the document has at its name or position; writing every kind of value:
    the document written has each member's value at its name or position."""
    mod = core.compile_ir('json', shims=('json',))

    A = lambda i: ('arg', i)
    i32 = lambda i: ('int', T.cast('sext', 32, 64, A(i)))
    cn = lambda n: ('int', C(n, 64))
    st = lambda b, n: ('str', A(b), A(n))
    inn = lambda a, b, n: ('obj', {'p': i32(a), 'q': st(b, n)})
    arr = lambda *xs: ('arr', list(xs))
    W = {
        'bool': ('bool', A(0)), 'char': ('int', T.cast('sext', 8, 64, A(0))), 'int': i32(0), 'uint': ('int', T.cast('zext', 32, 64, A(0))), 'long': ('int', A(0)),
        'real': ('real', A(0)), 'str': st(0, 1), 'buf': ('str', f('b64_text', A(0)), f('b64_size', A(0))),
        'tup1': i32(0), 'tup2': arr(i32(0), st(1, 2)), 'tup4': arr(i32(0), i32(1), arr(i32(2), i32(3)), i32(4)), 'tupe': arr(i32(0), st(1, 2), i32(3)),
        'inner': inn(0, 1, 2), 'flat': ('obj', {'a': i32(0), 'b': st(1, 2), 'c': ('int', T.cast('zext', 32, 64, A(3))), 'd': ('str', f('b64_text', A(4)), f('b64_size', A(4)))}),
        'one': ('obj', {'only': i32(0)}),
        'deep': ('obj', {'x': inn(0, 1, 2), 'xs': arr(i32(3), i32(4)), 'y': ('obj', {'p': i32(5), 'q': ('str', T.ptr(A(1), 1), A(2))}), 'z': ('str', T.ptr(A(1), 2), C(7, 64))}),
        'bag0': arr(), 'bag1': arr(i32(0)), 'bag3': arr(i32(0), i32(1), i32(2)), 'bagi': arr(inn(0, 1, 2), inn(3, 1, 2)),
        'bagb': arr(arr(i32(0)), arr(), arr(i32(1), i32(0))),
        'var0': cn(0), 'var1': arr(cn(1), st(0, 1)), 'var2': arr(cn(2), i32(0)), 'var3': arr(cn(3), inn(0, 1, 2)),
        'holder': ('obj', {'before': i32(0), 'v': arr(cn(2), i32(1)), 'after': i32(2)}),
        'lists0': ('obj', {'is': arr(), 'bs': arr()}),
    }
    jobs = [(reading, x) for x in SCHEMA.items()] + [(writing, x) for x in W.items()]
    chk.parallel(lambda sub, j: j[0](sub, mod, *j[1]), jobs)


CHECKS = {'C24': (c24, 500)}
