"""Flow- and path-sensitive abstract interpretation of a witness function.

The abstract state is (block, value terms, memory terms, branch facts, monitor
state).  Events of the witness (calls of undefined `evt_*` functions, operator
new/delete, other external calls) drive the monitor.  Loop-free code is covered
exactly (every CFG path whose branch facts are consistent); at loop headers the
loop-variant part of the state is widened and the walk stops when a state
repeats.
"""
from . import bytesets, terms as T
from .terms import C, is_c


class Unsupported(Exception):
    pass


class Ev:
    __slots__ = ('name', 'targs', 'args', 'res', 'loc', 'k', 'raw')

    def __init__(self, name, targs, args, res, loc, k, raw=None):
        self.name, self.targs, self.args, self.res, self.loc, self.k, self.raw = name, targs, args, res, loc, k, raw

    def key(self):
        return (self.name, self.targs, self.args)

    def show(self, names=None):
        ta = '<' + ','.join(map(str, self.targs)) + '>' if self.targs else ''
        if self.name in ('loop_enter', 'loop_back'):
            return f'{self.name}{ta}(' + ', '.join(f'{T.show(p)}={T.show(v, names)}' for p, v in self.args) + ')'
        return f'{self.name}{ta}(' + ', '.join(T.show(a, names) for a in self.args) + ')'


class Trace:
    """one maximal path of a loop-free witness"""
    def __init__(self, events, facts, kind, ret, retmem, mem, counts=()):
        self.events, self.facts, self.kind, self.ret, self.retmem = events, facts, kind, ret, retmem
        self.mem = mem
        self.bytes = {k[1]: v for k, v in counts.items() if k[0] == 'bytes'} if counts else {}

    def evs(self, *names):
        return [e for e in self.events if e.name in names]

    def fact(self, term):
        return self.facts.get(term)

    def show(self, names=None):
        return ' ; '.join(e.show(names) for e in self.events) + f' => {self.kind}' + (
            f' {T.show(self.ret, names)}' if self.ret is not None else '')


ALLOC = {'_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t', 'malloc'}
# the exception runtime changes nothing the program can see
EXC = {'__cxa_begin_catch', '__cxa_end_catch', '__cxa_allocate_exception', '__cxa_free_exception', '__cxa_throw', '__cxa_rethrow'}
FREE = {'_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', 'free'}
IGNORE_INTR = ('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias',
               'llvm.donothing', 'llvm.var.annotation', 'llvm.prefetch')


class State:
    __slots__ = ('fn', 'bb', 'prev', 'env', 'mem', 'facts', 'counts', 'events', 'mon', 'stack',
                 'esc', 'epoch', 'hist', 'depth')

    def copy(self):
        s = State()
        s.fn, s.bb, s.prev = self.fn, self.bb, self.prev
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), dict(self.facts)
        s.counts, s.events, s.mon = dict(self.counts), list(self.events), self.mon
        s.stack = list(self.stack)
        s.esc, s.epoch = set(self.esc), self.epoch
        s.hist = self.hist
        s.depth = self.depth
        return s


class Explorer:
    def __init__(self, mod, fname, monitor=None, max_steps=400000, inline_depth=12, keep_events=True,
                 unwind=False, external=None, havoc_mem=True, names=None, loop_events=False, unroll=0, bytes=None, max_cut=False, args=None):
        # {argument: its value}
        self.given = args or {}
        self.mod = mod
        self.f = mod.fns[fname]
        self.monitor = monitor
        self.max_steps = max_steps
        self.steps = 0
        self.inline_depth = inline_depth
        self.keep_events = keep_events
        self.loop_events = loop_events
        # {input byte: set of its values (a 256-bit mask)}: see bytesets
        self.bytes = bytes
        self.tables = bytesets.Tables(mod) if bytes is not None else None
        # where those bytes are is not null
        self.objects = {a[1] for a in bytes or () if a[0] == 'load'}
        self.cut = max_cut        # ... or the path is left there ('cut')
        self.unroll = unroll      # loops are followed exactly for that many rounds (more: no answer)
        self.unwind = unwind
        self.traces = []
        self.seen = set()
        self.sites = set()
        self.blocks = set()
        self.loops = set()
        self.external = external or set()
        self.names = names

    # ---- values -------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            return st.env[o[1]]
        if k == 'a':
            return st.env[('a', o[1])]
        if k == 'i':
            return C(int(o[1]), o[2])
        if k == 'null':
            return ('null',)
        if k in ('g', 'fn'):
            return (k, o[1])
        if k == 'off':
            return T.ptr(self.val(st, o[1]), o[2])
        if k == 'undef':
            return ('undef',)
        if k == 'agg':
            return ('agg', tuple(self.val(st, x) for x in o[2:]))
        if k == 'zero':
            return ('zero',)
        if k == 'f':
            return ('f', o[1])
        if k in ('md', 'asm', 'const', 'bb'):
            return ('const', str(o[1:]))
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.val(st, o[3])
            if o[1] == 'sub':
                return T.binop('sub', T.width(o[2]) or 64, self.val(st, o[3]), self.val(st, o[4]))
            return ('const', repr(o))
        raise Unsupported(f'operand {o}')

    def fold(self, st, t):
        """what is constant over the possible values of the one byte it depends on"""
        if self.tables is None or t[0] in ('c', 'arg', 'ptr'):
            return t
        at = self.tables.atoms_of(t)
        if at is None or len(at) != 1:
            return t
        (a,) = at
        m = st.counts.get(('bytes', a))
        if m is None:
            return t
        tab = self.tables.table(t, a)
        vals = {tab[v] for v in bytesets.members(m)}
        if len(vals) == 1 and None not in vals:
            w = T.width_of(t) or 8 * (t[3] if t[0] == 'load' else 1)
            return C(vals.pop(), w)
        return t

    def linear(self, st, t, w):
        at = self.tables.atoms_of(t)
        if at is None:
            return None
        return bytesets.linear(self.tables, t, w, {a: st.counts[('bytes', a)] for a in at if ('bytes', a) in st.counts})

    def narrow(self, st, t):
        """two sums of functions of single bytes are equal: the bytes for which they cannot be are out; False when none is left"""
        w = T.width_of(t[2]) or T.width_of(t[3])
        x, y = (self.linear(st, z, w) for z in (t[2], t[3])) if w else (None, None)
        if x is None or y is None:
            return True
        a, b = bytesets.span(x), bytesets.span(y)
        if min(a[0], b[0]) < 0 or max(a[1], b[1]) >= 1 << w:
            return True
        d = bytesets.plus(x, y, -1)
        lo, hi = bytesets.span(d)
        for atom, f in d[1].items():
            if ('bytes', atom) in st.counts:
                l, h = lo - min(f.values()), hi - max(f.values())
                m = bytesets.mask_of(v for v, k in f.items() if l + k <= 0 <= h + k)
                if m == 0:
                    return False
                st.counts[('bytes', atom)] &= m
        return True

    def compare(self, st, t):
        """a comparison of sums of functions of single bytes, decided by the least and the greatest difference"""
        at = self.tables.atoms_of(t)
        if at is None or len(at) < 2:
            return t
        w = T.width_of(t[2]) or T.width_of(t[3])
        x, y = (self.linear(st, z, w) for z in (t[2], t[3])) if w else (None, None)
        if x is None or y is None:
            return t
        a, b = bytesets.span(x), bytesets.span(y)
        lim = (0, (1 << w) - 1) if t[1] in ('eq', 'ne') or t[1][0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        if min(a[0], b[0]) < lim[0] or max(a[1], b[1]) > lim[1]:
            return t
        lo, hi = bytesets.span(bytesets.plus(x, y, -1))
        p = t[1] if t[1] in ('eq', 'ne') else t[1][1:]
        yes, no = {'eq': (lo == hi == 0, lo > 0 or hi < 0), 'lt': (hi < 0, lo >= 0), 'le': (hi <= 0, lo > 0), 'gt': (lo > 0, hi <= 0), 'ge': (lo >= 0, hi < 0),
                   'ne': (lo > 0 or hi < 0, lo == hi == 0)}[p]
        return T.TRUE if yes else T.FALSE if no else t

    def simp(self, st, t):
        """apply the branch facts to a term (shallow, conditions only)"""
        if self.tables is not None and t[0] == 'icmp':
            f = self.compare(st, t)
            if f is not t:
                return f
        if self.tables is not None and t[0] in ('icmp', 'op', 'cast', 'load'):
            f = self.fold(st, t)
            if f is not t:
                return f
        if t in st.facts:
            return T.TRUE if st.facts[t] else T.FALSE
        if t[0] == 'icmp':
            n = T.lnot(t)
            if n in st.facts:
                return T.FALSE if st.facts[n] else T.TRUE
            a, b = t[2], t[3]
            if a in self.objects and b == ('null',) and t[1] in ('eq', 'ne'):
                return T.FALSE if t[1] == 'eq' else T.TRUE
            if a[0] == 'sel' or b[0] == 'sel':
                a2, b2 = self.simp(st, a), self.simp(st, b)
                if (a2, b2) != (a, b):
                    return self.simp(st, T.icmp(t[1], a2, b2))
            # x + c1 < c2 with x known not to wrap
            if is_c(b) and a[0] == 'op' and a[1] == 'add' and is_c(a[4]):
                w, half = b[2], 1 << (b[2] - 1)
                lo, hi, _, _ = self.bounds(st, a[3], w)
                c1 = T.sval(a[4])
                if t[1][0] == 'u' and lo + c1 >= 0 and hi + c1 < 2 * half:
                    v = b[1] - c1
                    if v < 0 or v >= 2 * half:
                        return T.TRUE if (v < 0) == (t[1] in ('ugt', 'uge')) else T.FALSE
                    return self.simp(st, T.icmp(t[1], a[3], C(v, w)))
                if t[1][0] == 's' and hi < half and -half <= lo + c1 and hi + c1 < half:
                    v = T.sval(b) - c1
                    if v < 0 or v >= half:
                        return T.TRUE if (v < 0) == (t[1] in ('sgt', 'sge')) else T.FALSE
                    return self.simp(st, T.icmp(t[1], a[3], C(v, w)))
            # equality / disequality / interval knowledge about a
            if is_c(b):
                lo, hi, ne, w = self.bounds(st, a, b[2])
                if lo is not None:
                    v = b[1]
                    p = t[1]
                    if lo == hi:
                        r = T.icmp(p, C(lo, w), b)
                        if r in (T.TRUE, T.FALSE):
                            return r
                    if p == 'eq' and (v < lo or v > hi or v in ne):
                        return T.FALSE
                    if p == 'ne' and (v < lo or v > hi or v in ne):
                        return T.TRUE
                    if p == 'ult':
                        if hi < v:
                            return T.TRUE
                        if lo >= v:
                            return T.FALSE
                    if p == 'ule':
                        if hi <= v:
                            return T.TRUE
                        if lo > v:
                            return T.FALSE
                    if p == 'ugt':
                        if lo > v:
                            return T.TRUE
                        if hi <= v:
                            return T.FALSE
                    if p == 'uge':
                        if lo >= v:
                            return T.TRUE
                        if hi < v:
                            return T.FALSE
                    half = 1 << (w - 1)
                    if hi < half and v < half:
                        m = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}
                        if p in m:
                            return self.simp(st, ('icmp', m[p], a, b))
                    if hi < half and v >= half:
                        if p in ('sgt', 'sge'):
                            return T.TRUE
                        if p in ('slt', 'sle'):
                            return T.FALSE
            return t
        if t[0] == 'op' and t[2] == 1:
            a, b = self.simp(st, t[3]), self.simp(st, t[4])
            r = T.binop(t[1], 1, a, b)
            return r
        if t[0] == 'op' and t[1] in ('and', 'or', 'xor', 'add') and (t[3][0] == 'cast' or t[4][0] == 'cast'
                                                                     or t[3][0] == 'sel' or t[4][0] == 'sel'):
            a, b = self.simp(st, t[3]), self.simp(st, t[4])
            if (a, b) != (t[3], t[4]):
                return T.binop(t[1], t[2], a, b)
        if t[0] == 'sel':
            c = self.simp(st, t[1])
            if c == T.TRUE:
                return self.simp(st, t[2])
            if c == T.FALSE:
                return self.simp(st, t[3])
            return t
        if t[0] == 'cast' and (t[2] == 1 or t[4][0] in ('sel', 'cast', 'op')):
            a = self.simp(st, t[4])
            if a != t[4]:
                return T.cast(t[1], t[2], t[3], a)
        return t

    def bounds(self, st, a, w, depth=0):
        lo, hi, ne = 0, (1 << w) - 1, set()
        if is_c(a):
            return a[1], a[1], ne, w
        if a[0] == 'cast' and a[1] == 'zext' and depth < 6:
            l, h, _, _ = self.bounds(st, a[4], a[2], depth + 1)
            lo, hi = l, h
        elif a[0] == 'op' and a[1] == 'and' and is_c(a[4]):
            hi = a[4][1]
        elif a[0] == 'op' and a[1] == 'lshr' and is_c(a[4]) and depth < 6:
            l, h, _, _ = self.bounds(st, a[3], w, depth + 1)
            lo, hi = l >> a[4][1], h >> a[4][1]
        for f, v in st.facts.items():
            if f[0] == 'icmp' and is_c(f[3]) and f[1] == 'eq' and v and f[2][0] == 'op' and f[2][1] == 'lshr' and f[2][3] == a and is_c(f[2][4]):
                sh = f[2][4][1]
                lo, hi = max(lo, f[3][1] << sh), min(hi, (f[3][1] + 1 << sh) - 1)
                continue
            if f[0] != 'icmp' or f[2] != a or not is_c(f[3]):
                continue
            p, n = f[1], f[3][1]
            if not v:
                p = T.NEG[p]
            if p == 'eq':
                lo = max(lo, n)
                hi = min(hi, n)
            elif p == 'ne':
                ne.add(n)
            elif p == 'ult':
                hi = min(hi, n - 1)
            elif p == 'ule':
                hi = min(hi, n)
            elif p == 'ugt':
                lo = max(lo, n + 1)
            elif p == 'uge':
                lo = max(lo, n)
            elif p in ('slt', 'sle') and lo >= 0 and n < (1 << (w - 1)):
                pass
        half = 1 << (w - 1)
        # signed facts once the value is known non-negative
        for f, v in st.facts.items():
            if f[0] != 'icmp' or f[2] != a or not is_c(f[3]):
                continue
            p, n = f[1], f[3][1]
            if not v:
                p = T.NEG[p]
            if n < half:
                if p == 'sgt':
                    lo = max(lo, n + 1)
                    hi = min(hi, half - 1)
                elif p == 'sge':
                    lo = max(lo, n)
                    hi = min(hi, half - 1)
                elif p == 'slt' and hi < half:
                    hi = min(hi, n - 1)
                elif p == 'sle' and hi < half:
                    hi = min(hi, n)
            elif n == (1 << w) - 1 and p == 'sgt':
                hi = min(hi, half - 1)
        while lo in ne and lo < hi:
            lo += 1
        return lo, hi, ne, w

    def assume(self, st, t, v):
        """add fact t == v; False when contradictory"""
        t = self.simp(st, t)
        if t == T.TRUE:
            return v
        if t == T.FALSE:
            return not v
        if t[0] == 'op' and t[2] == 1 and t[1] == 'xor' and t[4] == T.TRUE:
            return self.assume(st, t[3], not v)
        if t[0] == 'op' and t[2] == 1 and ((t[1] == 'and' and v) or (t[1] == 'or' and not v)):
            return self.assume(st, t[3], v) and self.assume(st, t[4], v)
        if t[0] == 'icmp' and not v:
            t, v = T.lnot(t), True
        if t[0] == 'cast' and t[1] == 'zext' and False:
            pass
        st.facts[t] = v
        if self.tables is not None:
            at = self.tables.atoms_of(t)
            if at is not None and len(at) == 1 and ('bytes', *at) in st.counts:
                (a,) = at
                tab, m = self.tables.table(t, a), 0
                for x in bytesets.members(st.counts[('bytes', a)]):
                    if tab[x] is None or bool(tab[x]) == v:
                        m |= 1 << x
                st.counts[('bytes', a)] = m
                if m == 0:
                    return False
            elif at is not None and len(at) > 1 and t[0] == 'icmp' and t[1] == 'eq' and v and not self.narrow(st, t):
                return False
        if t[0] == 'icmp' and is_c(t[3]):
            lo, hi, ne, w = self.bounds(st, t[2], t[3][2])
            if lo > hi:
                return False
            if lo == hi and not is_c(t[2]):
                # the value is known now: what was assumed about terms over it still has to hold
                x, c = t[2], {t[2]: C(lo, t[3][2])}
                for f, fv in st.facts.items():
                    if f is not t and f[0] in ('icmp', 'op') and x in T.subterms(f) and f[2:3] != (x,):
                        r = T.evaluate(f, c)
                        if is_c(r) and (r == T.TRUE) != fv:
                            return False
        return True

    def forks(self, st, t):
        """resolve selects in t by splitting the state: list of (state, term)"""
        out = []
        work = [(st, t)]
        while work:
            s, x = work.pop()
            x = self.simp(s, x)
            c = self.find_sel(s, x)
            if c is None:
                out.append((s, x))
                continue
            for v in (True, False):
                s2 = s.copy()
                if self.assume(s2, c, v):
                    work.append((s2, self.resolve(s2, x)))
        return out

    def find_sel(self, st, t):
        if t[0] == 'sel':
            return t[1]
        if t[0] == 'cast':
            if t[1] == 'zext' and t[2] == 1 and t[4][0] in ('icmp',) and False:
                return t[4]
            return self.find_sel(st, t[4])
        if t[0] == 'op':
            return self.find_sel(st, t[3]) or self.find_sel(st, t[4])
        if t[0] == 'icmp':
            return self.find_sel(st, t[2]) or self.find_sel(st, t[3])
        if t[0] == 'ptr':
            r = self.find_sel(st, t[1])
            if r:
                return r
            for v, _ in t[3]:
                r = self.find_sel(st, v)
                if r:
                    return r
        if t[0] == 'agg':
            for x in t[1]:
                r = self.find_sel(st, x)
                if r:
                    return r
        return None

    def resolve(self, st, t):
        if t[0] == 'icmp':
            return self.simp(st, T.icmp(t[1], self.resolve(st, t[2]), self.resolve(st, t[3])))
        if t[0] == 'sel':
            c = self.simp(st, t[1])
            if c == T.TRUE:
                return self.resolve(st, t[2])
            if c == T.FALSE:
                return self.resolve(st, t[3])
            return t
        if t[0] == 'cast':
            return T.cast(t[1], t[2], t[3], self.resolve(st, t[4]))
        if t[0] == 'op':
            return T.binop(t[1], t[2], self.resolve(st, t[3]), self.resolve(st, t[4]))
        if t[0] == 'ptr':
            return T.ptr(self.resolve(st, t[1]), t[2], tuple((self.resolve(st, v), s) for v, s in t[3]))
        if t[0] == 'agg':
            return ('agg', tuple(self.resolve(st, x) for x in t[1]))
        return t

    # ---- memory --------------------------------------------------------------
    def local(self, st, base):
        return base[0] in ('alloca', 'heap') and base not in st.esc

    def mayalias(self, st, b1, b2):
        if b1 == b2:
            return True
        f1, f2 = b1[0] in ('alloca', 'heap', 'g'), b2[0] in ('alloca', 'heap', 'g')
        if f1 and f2:
            return False
        if self.local(st, b1) or self.local(st, b2):
            return False
        return True

    def load(self, st, p, sz, ty):
        base, off, vars = T.split_ptr(p)
        if base[0] == 'g' and not vars and base[1] in self.mod.globals:
            by = self.mod.globals[base[1]].get('bytes')
            w = T.width(ty)
            if by is not None and w and 0 <= off and off + sz <= len(by):
                return C(int.from_bytes(bytes(by[off:off + sz]), 'little'), w)
        key = (base, off, vars)
        m = st.mem.get(key)
        if m is not None:
            if m[0] == sz:
                v = m[1]
                if v == ('zero',):
                    w = T.width(ty)
                    return C(0, w) if w else ('null',)
                if v[0] == 'bytes' and v[1] >= 0 and T.width(ty):
                    return C(int.from_bytes(bytes([v[1]] * sz), 'little'), T.width(ty))
                return v
            if m[0] > sz and T.width(ty) and T.width_of(m[1]) == m[0] * 8:
                return T.cast('trunc', m[0] * 8, T.width(ty), m[1])
            if m[0] > sz and m[1] == ('zero',):
                return C(0, T.width(ty)) if T.width(ty) else ('null',)
            if m[0] > sz and m[1][0] == 'agg':
                return m[1][1][0]
            if m[0] > sz and m[1][0] == 'load' and m[1][3] == m[0]:
                return m[1][:3] + (sz,) + m[1][4:]
        # covered by a wider store (e.g. memset)
        for (b, o, vv), (s2, v2) in st.mem.items():
            if b == base and vv == vars and o <= off and off + sz <= o + s2 and (b, o, vv) != key:
                if v2 == ('zero',):
                    w = T.width(ty)
                    return C(0, w) if w else ('null',)
                if v2[0] == 'bytes':
                    w = T.width(ty)
                    return C(int.from_bytes(bytes([v2[1]] * sz), 'little'), w or sz * 8)
                if v2[0] == 'load' and v2[3] == s2:
                    return v2[:2] + (v2[2] + off - o, sz) + v2[4:]
                if T.width_of(v2) == s2 * 8 and T.width(ty):
                    return T.cast('trunc', s2 * 8, T.width(ty),
                                  T.binop('lshr', s2 * 8, v2, C((off - o) * 8, s2 * 8)))
        # assembled from byte stores
        w = T.width(ty)
        if w and sz > 1 and w == sz * 8:
            parts, at, cat = [], off, False
            while at < off + sz:
                m = st.mem.get((base, at, vars))
                if m is None or at + m[0] > off + sz:
                    parts = None
                    break
                if T.width_of(m[1]) != m[0] * 8 and m[1] != ('zero',):
                    if m[1][0] != 'load' or m[1][3] != m[0]:
                        parts = None
                        break
                    cat = True
                parts.append((at - off, m))
                at += m[0]
            if parts and len(parts) > 1 and cat:
                return ('cat', tuple((o, s2, C(0, s2 * 8) if v2 == ('zero',) else v2) for o, (s2, v2) in parts))
            if parts and len(parts) > 1:
                acc = None
                for o, (s2, v2) in parts:
                    v2 = C(0, s2 * 8) if v2 == ('zero',) else v2
                    x = T.binop('shl', w, T.cast('zext', s2 * 8, w, v2), C(o * 8, w))
                    acc = x if acc is None else T.binop('or', w, acc, x)
                return acc
        if base[0] == 'alloca':
            ep = st.epoch.get(base, 0) if isinstance(st.epoch, dict) else 0
            v = ('load', base, off, sz, ep, vars)
        else:
            v = ('load', base, off, sz, self.ep(st, base), vars)
        st.mem[key] = (sz, v)
        return v

    def live(self, st, p, ins):
        b = T.split_ptr(p)[0]
        if b[0] == 'heap' and st.counts.get(('freed', b)):
            self.emit(st, 'use_after_delete', (), [p], None, ins.get('loc'), 0)

    def ep(self, st, base):
        return st.epoch.get(base, st.epoch.get(None, 0))

    def store(self, st, p, sz, v):
        base, off, vars = T.split_ptr(p)
        if v[0] == 'cat':
            for o, s2, x in v[1]:
                self.store(st, T.ptr(p, o), s2, x)
            return
        for k in list(st.mem):
            b, o, vv = k
            s2 = st.mem[k][0]
            if b == base:
                if vv == vars:
                    if o + s2 > off and o < off + sz:
                        if not (o == off and s2 == sz) and (st.mem[k][1] == ('zero',) or st.mem[k][1][0] == 'bytes' and st.mem[k][1][1] >= 0):
                            # split what is filled with one value
                            z = st.mem.pop(k)[1]
                            if o < off:
                                st.mem[(b, o, vv)] = (off - o, z)
                            if o + s2 > off + sz:
                                st.mem[(b, off + sz, vv)] = (o + s2 - off - sz, z)
                        else:
                            del st.mem[k]
                else:
                    del st.mem[k]
            elif self.mayalias(st, b, base):
                del st.mem[k]
        st.mem[(base, off, vars)] = (sz, v)
        # storing a local's address makes it reachable
        vb = T.split_ptr(v)[0]
        if vb[0] in ('alloca', 'heap') and not self.local(st, base):
            st.esc.add(vb)
            self.escape_closure(st, vb)

    def escape_closure(self, st, base):
        for (b, o, vv), (s, v) in list(st.mem.items()):
            if b == base:
                vb = T.split_ptr(v)[0]
                if vb[0] in ('alloca', 'heap') and vb not in st.esc:
                    st.esc.add(vb)
                    self.escape_closure(st, vb)

    def clobber(self, st, bases=None):
        st.epoch = dict(st.epoch)
        st.counts['epoch'] = n = st.counts.get('epoch', 0) + 1
        if bases is None:
            st.epoch = {None: n, **{b: e for b, e in st.epoch.items() if b and self.local(st, b)}}
            for k in list(st.mem):
                if not self.local(st, k[0]) and k[0][0] != 'g':
                    del st.mem[k]
        else:
            for b in bases:
                st.epoch[b] = n
                for k in list(st.mem):
                    if k[0] == b or self.mayalias(st, k[0], b):
                        del st.mem[k]

    # ---- walking --------------------------------------------------------------
    def run(self):
        st = State()
        st.fn, st.bb, st.prev = self.f, self.f.entry, None
        st.env = {('a', i): self.given.get(i, ('arg', i)) for i in range(len(self.f.args))}
        st.mem, st.facts, st.counts, st.events = {}, {}, {}, []
        st.mon = self.monitor.init() if self.monitor else None
        if self.bytes:
            st.counts = {('bytes', a): m for a, m in self.bytes.items()}
        st.stack = []
        st.esc, st.epoch, st.hist, st.depth = set(), {}, (), 0
        work = [(st, 0)]
        self.work = work
        while work:
            s, i = work.pop()
            self.block(s, i, work)
        return self.traces

    def enter(self, st, frm, to, work):
        st = st.copy()
        fn = st.fn
        phis = []
        for ins in fn.blocks[to]:
            if ins['op'] != 'phi':
                break
            for b, v in ins['in']:
                if b == frm:
                    phis.append((ins['id'], self.val(st, v), ins))
                    break
        if to in fn.headers:
            self.loops.add((fn.name, to))
            key0 = (fn.name, to, len(st.stack))
            visits = st.counts.get(('hdr', key0), 0)
            from_inside = frm in fn.body(to)
            if self.unroll:
                n = visits + 1 if from_inside else 1
                if n > self.unroll + 1 and self.cut:
                    self.finish(st, 'cut', None)
                    return
                if n > self.unroll + 1:
                    raise Unsupported(f'{self.f.name}: a loop in {fn.name} runs for more than {self.unroll} rounds')
                st.counts[('hdr', key0)] = n
                for pid, v, ins in phis:
                    st.env[pid] = v
                st.prev, st.bb = frm, to
                work.append((st, self.first_non_phi(fn, to)))
                return
            if not from_inside:
                st.counts[('hdr', key0)] = 1
                # entering: keep precise; widening happens on the back edge
            if from_inside or True:
                # widen loop-variant phis and anything the body may write
                vals = tuple((('phi', fn.name, pid, len(st.stack)), v) for pid, v, _ in phis)
                if self.loop_events:
                    self.emit(st, 'loop_back' if from_inside else 'loop_enter', (to,), vals, None, None, 0)
                before = st
                st = self.widen(st, to, phis, from_inside)
                for pid, _, ins in phis:
                    pass
                st.prev, st.bb = frm, to
                k = self.memo_key(st)
                if k in self.seen:
                    if self.loop_events and from_inside:
                        self.finish(before, 'loop', None)
                    return
                self.seen.add(k)
                work.append((st, self.first_non_phi(fn, to)))
                return
        for pid, v, ins in phis:
            st.env[pid] = v
        st.prev, st.bb = frm, to
        work.append((st, self.first_non_phi(fn, to)))

    def first_non_phi(self, fn, b):
        i = 0
        for ins in fn.blocks[b]:
            if ins['op'] != 'phi':
                return i
            i += 1
        return i

    def widen(self, st, hdr, phis, back):
        fn = st.fn
        body = fn.body(hdr)
        # values defined in the loop are gone; facts about them too
        defined = set()
        evs = set()
        writes = False
        for b in body:
            for ins in fn.blocks[b]:
                if 'id' in ins:
                    defined.add(ins['id'])
                if ins['op'] in ('store',):
                    writes = True
                if ins['op'] in ('call', 'invoke'):
                    ev = self.mod.event_of(ins.get('callee', ''))
                    if ev:
                        evs.add(ev)
                    elif not ins.get('intrinsic'):
                        writes = True
                    elif 'memcpy' in ins['callee'] or 'memset' in ins['callee'] or 'memmove' in ins['callee']:
                        writes = True
        d = len(st.stack)
        for pid, v, ins in phis:
            if is_c(v) is False and not back and self.invariant_phi(fn, hdr, ins, body):
                st.env[pid] = v
            else:
                # a loop-carried value: unknown (typed) on every iteration
                st.env[pid] = ('phi', fn.name, pid, d)
        keys = {('phi', fn.name, pid, d) for pid, _, _ in phis}

        def stale(t):
            for x in T.subterms(t):
                if x in keys:
                    return True
                if x[0] == 'res' and (x[1], x[2]) in evs:
                    return True
            return False
        if back:
            st.facts = {f: v for f, v in st.facts.items() if not stale(f)}
            # occurrence counters restart so that the state can repeat
            for (n, t) in list(evs):
                c = st.counts.get((n, t), 0)
                st.counts[(n, t)] = min(c, 1)
            for k in [k for k in st.env if k in defined]:
                if k not in {p for p, _, _ in phis}:
                    del st.env[k]
        if writes:
            # memory written in the loop body is unknown at the header
            keep = {}
            wb = self.written_bases(st, fn, body)
            for k, v in st.mem.items():
                if wb is None:
                    if self.local(st, k[0]) and False:
                        keep[k] = v
                    continue
                if k[0] in wb or any(self.mayalias(st, k[0], b) for b in wb):
                    continue
                if stale(v[1]):
                    continue
                keep[k] = v
            st.mem = keep
            st.epoch = {None: ('loop', hdr, d)}
        if self.monitor and hasattr(self.monitor, 'widen'):
            st.mon = self.monitor.widen(st.mon, stale)
        return st

    def invariant_phi(self, fn, hdr, ins, body):
        return all(v == ['v', ins['id']] or b not in body for b, v in ins['in'])

    def written_bases(self, st, fn, body):
        """bases stored to in the loop body, None when unknown"""
        out = set()

        def root(o, seen=()):
            if o[0] == 'v':
                if o[1] in seen:
                    return set()
                for b in fn.blocks.values():
                    for x in b:
                        if x.get('id') == o[1]:
                            if x['op'] == 'getelementptr':
                                return root(x['ops'][0], seen)
                            if x['op'] == 'phi':
                                r = set()
                                for _, v in x['in']:
                                    q = root(v, seen + (o[1],))
                                    if q is None:
                                        return None
                                    r |= q
                                return r
                            if x['op'] == 'select':
                                a, c = root(x['ops'][1], seen), root(x['ops'][2], seen)
                                return None if a is None or c is None else a | c
                            if o[1] in st.env:
                                return {T.split_ptr(st.env[o[1]])[0]}
                            return None
                return None
            try:
                return {T.split_ptr(self.val(st, o))[0]}
            except Exception:
                return None
        for b in body:
            for ins in fn.blocks[b]:
                if ins['op'] == 'store':
                    r = root(ins['ops'][1])
                    if r is None:
                        return None
                    out |= r
                elif ins['op'] in ('call', 'invoke') and not self.mod.event_of(ins.get('callee', '')):
                    c = ins.get('callee', '')
                    if ins.get('intrinsic'):
                        if 'memcpy' in c or 'memset' in c or 'memmove' in c:
                            r = root(ins['ops'][0])
                            if r is None:
                                return None
                            out |= r
                    elif not (ins.get('ro') or ins.get('nomem')):
                        return None
        return out

    def memo_key(self, st):
        return (st.fn.name, st.bb, tuple((f.name, b, i) for f, b, i, _, _, _ in st.stack),
                frozenset((k, v) for k, v in st.env.items() if not isinstance(k, tuple)),
                frozenset(st.facts.items()), frozenset(st.mem.items()), st.mon,
                frozenset((k, v) for k, v in st.counts.items() if k[0] != 'hdr'))

    def finish(self, st, kind, ret):
        if self.monitor:
            self.monitor.exit(st.mon, kind, ret, st, self)
        self.traces.append(Trace(st.events, st.facts, kind, ret, None, st.mem, st.counts))

    def emit(self, st, name, targs, args, res, loc, k, raw=None):
        e = Ev(name, targs, tuple(args), res, loc, k, raw)
        self.sites.add((name, targs, tuple(tuple(x) for x in (loc or [])[:1])))
        if self.keep_events:
            st.events.append(e)
        if self.monitor:
            st.mon = self.monitor.event(st.mon, e, st, self)

    def block(self, st, i, work):
        fn = st.fn
        insts = fn.blocks[st.bb]
        self.blocks.add((fn.name, st.bb))
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported(f'{self.f.name}: state space larger than {self.max_steps} steps')
            ins = insts[i]
            op = ins['op']
            i += 1
            if op in ('call', 'invoke'):
                nxt = self.call(st, ins, i, work)
                if nxt is None:
                    return
                if nxt is not st:
                    return
                if op == 'invoke':
                    self.enter(st, st.bb, ins['normal'], work)
                    return
                continue
            if op == 'select' and self.tables is not None and ins['ty'] == 'ptr':
                # positions in the input have to be definite
                for s, x in self.forks(st, self.val(st, ins['ops'][0])):
                    for v, n in ((False, 2), (True, 1)):
                        s2 = s.copy()
                        if self.assume(s2, x, v):
                            s2.env[ins['id']] = self.val(s2, ins['ops'][n])
                            work.append((s2, i))
                return
            if op == 'br':
                if len(ins['succ']) == 1:
                    self.enter(st, st.bb, ins['succ'][0], work)
                    return
                c = self.val(st, ins['ops'][0])
                for s, x in self.forks(st, c):
                    for v, to in ((False, ins['succ'][1]), (True, ins['succ'][0])):
                        s2 = s.copy()
                        if self.assume(s2, x, v):
                            self.enter(s2, s2.bb, to, work)
                return
            if op == 'switch':
                c = self.val(st, ins['ops'][0])
                for s, x in self.forks(st, c):
                    d = s.copy()
                    ok = True
                    for cv, to in ins['cases']:
                        k = T.icmp('eq', x, self.val(s, cv))
                        s2 = s.copy()
                        if self.assume(s2, k, True):
                            self.enter(s2, s2.bb, to, work)
                        if ok:
                            ok = self.assume(d, k, False)
                    if ok:
                        # exhausted value range?
                        w = ins['cases'][0][0][2] if ins['cases'] else 0
                        lo, hi, ne, _ = self.bounds(d, x, w) if w else (0, 1, set(), 0)
                        if w and w <= 16 and len([v for v in range(lo, hi + 1) if v not in ne]) == 0:
                            ok = False
                    if ok:
                        self.enter(d, d.bb, ins['default'], work)
                return
            if op == 'ret':
                v = self.val(st, ins['ops'][0]) if ins['ops'] else None
                if st.stack:
                    cfn, cbb, ci, cins, cenv, cprev = st.stack.pop()
                    st.fn, st.bb, st.prev = cfn, cbb, cprev
                    env = dict(cenv)
                    if 'id' in cins:
                        env[cins['id']] = v
                    st.env = env
                    if cins['op'] == 'invoke':
                        self.enter(st, st.bb, cins['normal'], work)
                        return
                    fn, insts, i = cfn, cfn.blocks[cbb], ci
                    continue
                if v is not None:
                    for s, x in self.forks(st, v):
                        self.finish(s, 'ret', x)
                else:
                    self.finish(st, 'ret', None)
                return
            if op == 'unreachable':
                self.finish(st, 'unreachable', None)
                return
            if op == 'resume':
                # propagate into caller's landing pad
                while st.stack:
                    cfn, cbb, ci, cins, cenv, cprev = st.stack.pop()
                    st.fn, st.bb, st.prev, st.env = cfn, cbb, cprev, dict(cenv)
                    if cins['op'] == 'invoke':
                        self.enter(st, st.bb, cins['unwind'], work)
                        return
                self.finish(st, 'throw', None)
                return
            self.simple(st, ins)

    def simple(self, st, ins):
        op = ins['op']
        env = st.env
        V = lambda n: self.val(st, ins['ops'][n])
        if op == 'alloca':
            env[ins['id']] = ('alloca', st.fn.name, ins['id'], len(st.stack))
            st.esc.discard(env[ins['id']])
        elif op == 'load':
            p = V(0)
            p = self.simp(st, p)
            self.live(st, p, ins)
            env[ins['id']] = self.fold(st, self.load(st, p, ins['sz'], ins['ty']))
            if hasattr(self.monitor, 'load'):
                st.mon = self.monitor.load(st.mon, p, ins, st, self)
        elif op == 'store':
            p = self.simp(st, V(1))
            v = self.simp(st, V(0))
            self.live(st, p, ins)
            if hasattr(self.monitor, 'store'):
                st.mon = self.monitor.store(st.mon, p, v, ins, st, self)
            self.store(st, p, ins['sz'], v)
        elif op == 'getelementptr':
            if 'goff' in ins:
                vs = []
                off = ins['goff']
                for o, sc in ins['gvars']:
                    t = self.simp(st, self.val(st, o))
                    if is_c(t):
                        off += T.sval(t) * sc
                    else:
                        vs.append((t, sc))
                env[ins['id']] = T.ptr(V(0), off, tuple(sorted(vs, key=repr)))
            else:
                env[ins['id']] = ('ptr', V(0), 0, (('?gep', ins['id']), 1))
        elif op == 'icmp':
            a, b = V(0), V(1)
            if ins['pred'] in ('eq', 'ne') and (self.wide(a) or self.wide(b)):
                env[ins['id']] = self.same(st, a, b, ins['pred'] == 'ne')
            else:
                env[ins['id']] = self.fold(st, T.icmp(ins['pred'], a, b))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            w = T.width(ins['ty'])
            a, b = V(0), V(1)
            if w is None:
                env[ins['id']] = ('pure', op, ins['ty'], (a, b))
            else:
                env[ins['id']] = self.fold(st, T.binop(op, w, a, b))
        elif op in ('trunc', 'zext', 'sext'):
            wf, wt = T.width(ins['sty']), T.width(ins['ty'])
            if op == 'trunc' and wt == 8 and self.wide(V(0)):
                y = self.bytes_of(V(0), wf // 8)
                if y is not None:
                    env[ins['id']] = self.fold(st, y[0])
                    return
            env[ins['id']] = self.fold(st, T.cast(op, wf, wt, V(0))) if wf and wt else ('pure', op, ins['ty'], (V(0),))
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            v = V(0)
            if op == 'ptrtoint' and v == ('null',):
                v = C(0, T.width(ins['ty']) or 64)
            elif op == 'inttoptr' and v == C(0, 64):
                v = ('null',)
            env[ins['id']] = v
        elif op == 'select':
            c, a, b = self.simp(st, V(0)), V(1), V(2)
            if c == T.TRUE:
                r = a
            elif c == T.FALSE:
                r = b
            elif a == b:
                r = a
            elif ins['ty'] == 'i1':
                # c ? a : b  on booleans
                if b == T.FALSE:
                    r = T.binop('and', 1, c, a)
                elif a == T.TRUE:
                    r = T.binop('or', 1, c, b)
                else:
                    r = ('sel', c, a, b)
            else:
                r = ('sel', c, a, b)
            env[ins['id']] = r
        elif op == 'extractvalue':
            a = V(0)
            for ix in ins['idx']:
                a = self.extract(a, ix)
            env[ins['id']] = a
        elif op == 'insertvalue':
            a, v = V(0), V(1)
            env[ins['id']] = self.insert(a, v, ins['idx'])
        elif op == 'landingpad':
            env[ins['id']] = ('exc',)
        elif op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc', 'extractelement', 'insertelement', 'shufflevector', 'frem'):
            env[ins['id']] = ('pure', op, ins['ty'], tuple(self.val(st, o) for o in ins['ops']))
        elif op == 'atomicrmw' and ins.get('rmw') in ('xchg', 'add', 'sub', 'and', 'or', 'xor') and T.width(ins['ty']):
            # along one path: a load and a store
            p, v = self.simp(st, V(0)), self.simp(st, V(1))
            self.live(st, p, ins)
            old = self.fold(st, self.load(st, p, ins['sz'], ins['ty']))
            self.store(st, p, ins['sz'], v if ins['rmw'] == 'xchg' else self.fold(st, T.binop(ins['rmw'], T.width(ins['ty']), old, v)))
            env[ins['id']] = old
        elif op in ('atomicrmw', 'cmpxchg'):
            self.emit(st, op, (), [self.val(st, o) for o in ins['ops']], None, ins.get('loc'), 0)
            env[ins['id']] = ('atomic', st.fn.name, ins['id'])
        elif op == 'fence':
            pass
        elif op == 'phi':
            pass
        else:
            raise Unsupported(f'{st.fn.name}: instruction {op}')

    def wide(self, t):
        """made of several bytes of the input at once"""
        if t[0] == 'cat':
            return True
        if t[0] == 'load':
            return self.tables is not None and 1 < t[3] <= 8 and t[1][0] == 'arg'
        if self.tables is not None and (t[0] == 'op' and t[1] in ('and', 'or', 'xor', 'shl', 'lshr') and t[2] % 8 == 0 or t[0] == 'cast' and t[1] in ('zext', 'trunc') and t[2] % 8 == 0 and t[3] % 8 == 0):
            return any(isinstance(x, tuple) and self.wide(x) for x in t[2:])
        return False

    def bytes_of(self, t, n):
        """the n bytes of a value, lowest first, or None"""
        if is_c(t):
            return [C(t[1] >> 8 * i & 255, 8) for i in range(n)]
        if t[0] == 'load' and t[3] == n:
            return [t[:2] + (t[2] + i, 1) + t[4:] for i in range(n)]
        if t[0] == 'cat':
            out = []
            for _, s2, x in t[1]:
                y = self.bytes_of(x, s2) if s2 > 1 or x[0] in ('load', 'c') else [x]
                if y is None:
                    return None
                out += y
            return out
        if t[0] == 'cast' and t[1] == 'zext' and t[2] % 8 == 0 and t[3] == 8 * n:
            y = [t[4]] if t[2] == 8 else self.bytes_of(t[4], t[2] // 8)
            return None if y is None else y + [C(0, 8)] * (n - t[2] // 8)
        if t[0] == 'cast' and t[1] == 'trunc' and t[2] % 8 == 0 and t[3] == 8 * n:
            y = self.bytes_of(t[4], t[2] // 8)
            return None if y is None else y[:n]
        if t[0] == 'op' and t[2] == 8 * n:
            x = self.bytes_of(t[3], n)
            if x is None:
                return None
            if t[1] in ('shl', 'lshr') and is_c(t[4]) and t[4][1] % 8 == 0:
                k = t[4][1] // 8
                return ([C(0, 8)] * k + x)[:n] if t[1] == 'shl' else x[k:] + [C(0, 8)] * min(k, n)
            y = self.bytes_of(t[4], n)
            if y is not None and t[1] in ('and', 'or', 'xor'):
                return [T.binop(t[1], 8, p, q) for p, q in zip(x, y)]
        return None

    def size_of(self, t):
        if t[0] == 'cat':
            return sum(x[1] for x in t[1])
        return t[3] if t[0] == 'load' else t[2] // 8 if t[0] == 'op' else t[3] // 8 if t[0] == 'cast' else None

    def same(self, st, a, b, differ):
        n = self.size_of(a) or self.size_of(b)
        x, y = (self.bytes_of(a, n), self.bytes_of(b, n)) if n else (None, None)
        if x is None or y is None:
            return self.fold(st, T.icmp('ne' if differ else 'eq', a, b))
        r = C(0 if differ else 1, 1)
        for p, q in reversed(list(zip(x, y))):
            c = self.fold(st, T.icmp('eq', p, q))
            r = r if c == T.TRUE else C(1 if differ else 0, 1) if c == T.FALSE else ('sel', c, r, C(1 if differ else 0, 1))
        return r

    def extract(self, a, ix):
        if a[0] == 'agg':
            return a[1][ix]
        if a == ('undef',):
            return a
        if a == ('zero',):
            return a
        if a[0] == 'aggi':
            if ix in dict(a[2]):
                return dict(a[2])[ix]
            return self.extract(a[1], ix)
        return ('ev', a, ix)

    def insert(self, a, v, idx):
        ix = idx[0]
        if len(idx) > 1:
            v = self.insert(self.extract(a, ix), v, idx[1:])
        if a[0] == 'agg':
            l = list(a[1])
            l[ix] = v
            return ('agg', tuple(l))
        if a[0] == 'aggi':
            d = dict(a[2])
            d[ix] = v
            return ('aggi', a[1], tuple(sorted(d.items())))
        return ('aggi', a, ((ix, v),))

    def known_text(self, p):
        return T.split_ptr(p)[0][0] in ('alloca', 'heap', 'g') or T.split_ptr(p)[0] in self.objects

    def strlen(self, st, ins, i, p, work):
        """the paths part at every byte that may be the end"""
        for n in range(300):
            c = self.simp(st, T.icmp('eq', self.load(st, T.ptr(p, n), 1, 'i8'), C(0, 8)))
            if c != T.FALSE:
                s2 = st if c == T.TRUE else st.copy()
                if self.assume(s2, c, True):
                    s2.env[ins['id']] = C(n, 64)
                    work.append((s2, i))
            if c == T.TRUE or not self.assume(st, c, False):
                return None
        raise Unsupported(f'{self.f.name}: a text without an end')

    def call(self, st, ins, i, work):
        """returns st when execution continues in this block, None when queued/ended"""
        callee = ins.get('callee')
        args = [self.simp(st, self.val(st, o)) for o in ins['ops']]
        args = [a if self.find_sel(st, a) is None else self.resolve(st, a) for a in args]
        if callee and ins.get('intrinsic'):
            return self.intrinsic(st, ins, callee, args)
        if callee == 'strlen' and 'strlen' not in self.external and self.known_text(args[0]):
            return self.strlen(st, ins, i, args[0], work)
        if callee is None:
            tgt = self.simp(st, self.val(st, ins['ind'][0]))
            if tgt[0] == 'fn':
                callee = tgt[1]
        ev = self.mod.event_of(callee) if callee else None
        if callee and ev is None and callee in self.mod.fns and callee not in self.external:
            g = self.mod.fns[callee]
            if len(st.stack) < self.inline_depth and not any(f.name == callee for f, *_ in st.stack) and st.fn.name != callee:
                st.stack.append((st.fn, st.bb, i, ins, st.env, st.prev))
                st.env = {('a', n): a for n, a in enumerate(args)}
                st.fn, st.bb, st.prev = g, g.entry, None
                work.append((st, 0))
                return None
        if ev:
            # split selects in arguments so that every event has definite arguments
            for n, a in enumerate(args):
                if self.find_sel(st, a) is not None:
                    for s, x in self.forks(st, a):
                        s2 = s.copy()
                        work.append((s2, i - 1))
                    return None
            name, targs = ev
            k = st.counts.get((name, targs), 0)
            st.counts[(name, targs)] = k + 1
            res = ('res', name, targs, k) if 'id' in ins else None
            bases = []
            for n, a in enumerate(args):
                b = T.split_ptr(a)[0]
                if b[0] in ('alloca', 'heap') or n in ins.get('sret', []):
                    bases.append(b)
            vis = list(args)
            # a struct passed in memory: show the values it holds
            self.emit(st, name, targs, vis, res, ins.get('loc'), k, raw=ins)
            if bases and not name.startswith(('evt_r_', 'evtx_r_')):
                self.clobber(st, bases)
                for b in bases:
                    st.epoch[b] = ('after', name, targs, k)
            if res is not None:
                st.env[ins['id']] = res
            if name.startswith('evtx_') and ins['op'] == 'invoke':
                s2 = st.copy()
                s2.facts[('threw', name, targs, k)] = True
                self.enter(s2, s2.bb, ins['unwind'], work)
            elif name.startswith('evtx_'):
                s2 = st.copy()
                s2.facts[('threw', name, targs, k)] = True
                self.raise_(s2, work)
            return st
        name = callee or 'indirect'
        if name in ('bcmp', 'memcmp') and len(args) == 3 and is_c(args[2]) and args[2][1] <= 256:
            n, conds = args[2][1], []
            at = 0
            while at < n:
                z = 1 if self.tables is not None else 8 if n - at >= 8 else 4 if n - at >= 4 else 1
                a, b = (self.load(st, T.ptr(x, at), z, f'i{8 * z}') for x in args[:2])
                conds.append(T.icmp('eq', a, b))
                at += z
            if self.tables is not None:
                # byte by byte
                r = C(0, 32)
                for x in reversed([self.fold(st, x) for x in conds]):
                    r = r if x == T.TRUE else C(1, 32) if x == T.FALSE else ('sel', x, r, C(1, 32))
                st.env[ins['id']] = r
                return st
            c = T.TRUE
            for x in conds:
                c = T.binop('and', 1, c, x)
            nz = C(1, 32) if name == 'bcmp' else ('pure', 'memcmp', 'i32', tuple(conds))
            st.env[ins['id']] = C(0, 32) if c == T.TRUE else nz if c == T.FALSE else ('sel', c, C(0, 32), nz)
            return st
        if name in ('tolower', 'toupper') and len(args) == 1:
            # the "C" locale
            first, to = (65, 32) if name == 'tolower' else (97, -32)
            inside = self.fold(st, T.icmp('ult', T.binop('sub', 32, args[0], C(first, 32)), C(26, 32)))
            st.env[ins['id']] = args[0] if inside == T.FALSE else self.fold(st, T.binop('add', 32, args[0], C(to & 0xffffffff, 32)) if inside == T.TRUE else
                T.binop('add', 32, args[0], T.binop('mul', 32, T.cast('zext', 1, 32, inside), C(to & 0xffffffff, 32))))
            return st
        if name == 'memchr' and len(args) == 3 and is_c(args[2]) and args[2][1] <= 256:
            r = ('null',)
            for x in reversed(range(args[2][1])):
                c = self.fold(st, T.icmp('eq', self.load(st, T.ptr(args[0], x), 1, 'i8'), self.fold(st, T.cast('trunc', 32, 8, args[1]))))
                r = T.ptr(args[0], x) if c == T.TRUE else r if c == T.FALSE else ('sel', c, T.ptr(args[0], x), r)
            st.env[ins['id']] = r
            return st
        k = st.counts.get((name, ()), 0)
        st.counts[(name, ())] = k + 1
        if name in ALLOC or name.startswith('nsa_new'):
            h = ('heap', name, k)
            # allocation sites are numbered per path
            h = ('heap', st.counts.get('heap', 0))
            st.counts['heap'] = h[1] + 1
            self.emit(st, 'new', (), args, h, ins.get('loc'), h[1])
            st.env[ins['id']] = h
            return st
        if name in FREE or name.startswith('nsa_delete'):
            self.emit(st, 'delete', (), args[:1], None, ins.get('loc'), k)
            b = T.split_ptr(args[0])[0]
            if b[0] == 'heap':
                st.counts[('freed', b)] = True
            return st
        res = ('ext', name, k) if 'id' in ins else None
        if ins.get('nomem') and 'id' in ins:
            res = ('pure', name, ins['ty'], tuple(args))
        else:
            self.emit(st, 'call', (name,), args, res, ins.get('loc'), k, raw=ins)
            if not ins.get('ro') and not ins.get('nomem') and name not in EXC:
                for a in args:
                    b = T.split_ptr(a)[0]
                    if b[0] in ('alloca', 'heap'):
                        st.esc.add(b)
                        self.escape_closure(st, b)
                self.clobber(st)
        if res is not None:
            st.env[ins['id']] = res
        if self.unwind and not ins.get('nounwind'):
            s2 = st.copy()
            s2.facts[('threw', name, k)] = True
            if ins['op'] == 'invoke':
                self.enter(s2, s2.bb, ins['unwind'], work)
            else:
                self.raise_(s2, work)
        if ins.get('noreturn'):
            self.finish(st, 'noreturn:' + name, None)
            return None
        return st

    def raise_(self, st, work):
        while st.stack:
            cfn, cbb, ci, cins, cenv, cprev = st.stack.pop()
            st.fn, st.bb, st.prev, st.env = cfn, cbb, cprev, dict(cenv)
            if cins['op'] == 'invoke':
                self.enter(st, st.bb, cins['unwind'], work)
                return
        self.finish(st, 'throw', None)

    def intrinsic(self, st, ins, callee, args):
        if callee == 'llvm.assume' and args:
            if not self.assume(st, args[0], True):
                return None
            return st
        if callee.startswith(IGNORE_INTR):
            if 'id' in ins:
                st.env[ins['id']] = args[0] if args else ('const', callee)
            return st
        base = callee.split('.')[1]
        if base in ('memcpy', 'memmove'):
            d, s, n = args[0], args[1], args[2]
            db, do, dv = T.split_ptr(d)
            sb, so, sv = T.split_ptr(s)
            items = []
            self.live(st, d, ins)
            self.live(st, s, ins)
            if is_c(n):
                for (b, o, vv), (sz, v) in list(st.mem.items()):
                    if b == sb and vv == sv and so <= o and o + sz <= so + n[1]:
                        items.append((o - so, sz, v))
                if sb[0] == 'g' and sb[1] in self.mod.globals and self.mod.globals[sb[1]].get('bytes') and not sv:
                    by = self.mod.globals[sb[1]]['bytes']
                    items = [(x, 1, C(by[so + x], 8)) for x in range(n[1]) if so + x < len(by)]
                if not sv and n[1] <= 256 and sum(x[1] for x in items) < n[1] and (self.tables is not None or any(
                        b == sb and vv == sv and o < so + n[1] and so < o + sz and not (so <= o and o + sz <= so + n[1]) for (b, o, vv), (sz, v) in st.mem.items())):
                    # byte by byte: what lies across the ends, and what was never looked at
                    have = {o + x for o, sz, _ in items for x in range(sz)}
                    items += [(x, 1, self.load(st, T.ptr(s, x), 1, 'i8')) for x in range(n[1]) if x not in have]
            if hasattr(self.monitor, 'memcpy'):
                st.mon = self.monitor.memcpy(st.mon, d, s, n, ins, st, self)
            sz = n[1] if is_c(n) else 1 << 40
            src_ep = self.ep(st, sb)
            self.store(st, d, sz, ('copy', sb, so, sv, src_ep, n))
            del st.mem[(db, do, dv)]
            if not is_c(n):
                return st
            for o, sz, v in items:
                st.mem[(db, do + o, dv)] = (sz, v)
            covered = sum(sz for _, sz, _ in items)
            if covered < n[1]:
                # unknown parts: words of the source
                have = {o: sz for o, sz, _ in items}
                at = 0
                while at < n[1]:
                    if at in have:
                        at += have[at]
                        continue
                    step = 8 if self.tables is None and at % 8 == 0 and at + 8 <= n[1] and not any(at < h < at + 8 for h in have) else 1
                    if step == 1:
                        step = 1
                    v = ('load', sb, so + at, step, src_ep, sv)
                    st.mem[(db, do + at, dv)] = (step, v)
                    at += step
            return st
        if base == 'memset':
            d, v, n = args[0], args[1], args[2]
            if is_c(n):
                self.store(st, d, n[1], ('zero',) if v == C(0, 8) else ('bytes', v[1] if is_c(v) else -1))
            else:
                self.store(st, d, 1 << 40, ('undef',))
            return st
        if base == 'abs' and is_c(args[0]):
            st.env[ins['id']] = C(abs(T.sval(args[0])), args[0][2])
            return st
        if base in ('umax', 'umin', 'smax', 'smin'):
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base]
            st.env[ins['id']] = ('sel', T.icmp(p, args[0], args[1]), args[0], args[1])
            c = st.env[ins['id']][1]
            if c == T.TRUE:
                st.env[ins['id']] = args[0]
            elif c == T.FALSE:
                st.env[ins['id']] = args[1]
            return st
        if '.with.overflow.' in callee:
            x, y = args[0], args[1]
            w, sgn, what = int(callee.rsplit('.i', 1)[1]), base[0] == 's', base[1:]
            over = None
            if is_c(x) and is_c(y):
                a, b = (T.sval(x), T.sval(y)) if sgn else (x[1], y[1])
                r = a + b if what == 'add' else a - b if what == 'sub' else a * b
                over = C(0 if (-(1 << (w - 1)) <= r < 1 << (w - 1) if sgn else 0 <= r < 1 << w) else 1, 1)
            elif not sgn and what == 'add':
                over = T.icmp('ult', T.binop('add', w, x, y), x)
            elif not sgn and what == 'sub':
                over = T.icmp('ult', x, y)
            elif not sgn and (is_c(x) or is_c(y)):
                z, k = (y, x) if is_c(x) else (x, y)
                over = C(0, 1) if k[1] == 0 else T.icmp('ugt', z, C(((1 << w) - 1) // k[1], w))
            if over is not None:
                st.env[ins['id']] = ('agg', (self.fold(st, T.binop(what, w, x, y)), self.simp(st, over)))
                return st
        if base == 'eh':
            if 'id' in ins:
                st.env[ins['id']] = ('pure', callee, ins['ty'], tuple(args))
            return st
        if base in ('expect', 'annotation', 'ssa', 'launder', 'strip'):
            st.env[ins['id']] = args[0]
            return st
        if base in ('trap', 'ubsantrap', 'debugtrap'):
            self.finish(st, 'trap', None)
            return None
        if base == 'bswap':
            st.env[ins['id']] = ('pure', 'bswap', ins['ty'], tuple(args))
            return st
        if 'id' in ins:
            st.env[ins['id']] = ('pure', callee, ins['ty'], tuple(args))
        else:
            self.emit(st, 'call', (callee,), args, None, ins.get('loc'), 0)
        return st


def traces(mod, fname, **kw):
    ex = Explorer(mod, fname, **kw)
    ex.run()
    return ex
