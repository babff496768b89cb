"""Sets of byte values.

A term that depends on one byte of the input is a table of 256 values; what is
known about the byte is the set of its possible values.  Branches narrow that
set, and whatever is constant over it is a constant.
"""
from . import terms as T
from .terms import C

ALL = (1 << 256) - 1


def mask_of(values):
    m = 0
    for v in values:
        m |= 1 << v
    return m


def members(mask):
    return [v for v in range(256) if mask >> v & 1]


class Tables:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}
        self.atoms = {}

    def is_atom(self, t):
        return t[0] == 'load' and t[3] == 1 and t[1][0] == 'arg' or t[0] == 'pure' and t[2] == 'i8'

    def atoms_of(self, t):
        """the input bytes a term depends on; None when it depends on something else"""
        r = self.atoms.get(t, 0)
        if r != 0:
            return r
        k = t[0]
        if self.is_atom(t):
            r = frozenset([t])
        elif k == 'c':
            r = frozenset()
        elif k == 'op':
            r = self.join(t[3], t[4])
        elif k == 'icmp':
            r = self.join(t[2], t[3])
        elif k == 'cast':
            r = self.atoms_of(t[4])
        elif k == 'sel':
            r = self.join(t[1], t[2], t[3])
        elif k == 'load' and t[1][0] == 'g' and self.mod.globals.get(t[1][1], {}).get('bytes') is not None:
            r = self.join(*[v for v, _ in t[5]])
        else:
            r = None
        self.atoms[t] = r
        return r

    def join(self, *ts):
        out = frozenset()
        for t in ts:
            a = self.atoms_of(t)
            if a is None:
                return None
            out |= a
        return out

    def value(self, t, env):
        """the value of t with the bytes as in env {atom: value}; None when out of bounds"""
        if t in env:
            return env[t]
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'cast':
            v = self.value(t[4], env)
            return None if v is None else T.cast(t[1], t[2], t[3], C(v, t[2]))[1]
        if k == 'op':
            a, b = self.value(t[3], env), self.value(t[4], env)
            return None if a is None or b is None else T.binop(t[1], t[2], C(a, t[2]), C(b, t[2]))[1]
        if k == 'icmp':
            w = T.width_of(t[2]) or T.width_of(t[3]) or 8
            a, b = self.value(t[2], env), self.value(t[3], env)
            return None if a is None or b is None else T.icmp(t[1], C(a, w), C(b, w))[1]
        if k == 'sel':
            c = self.value(t[1], env)
            return None if c is None else self.value(t[2] if c else t[3], env)
        if k == 'load':
            off = t[2]
            for v, sc in t[5]:
                x = self.value(v, env)
                if x is None:
                    return None
                w = T.width_of(v) or 64
                off += (x - (1 << w) if x >> (w - 1) else x) * sc
            by = self.mod.globals[t[1][1]]['bytes']
            return int.from_bytes(bytes(by[off:off + t[3]]), 'little') if 0 <= off and off + t[3] <= len(by) else None
        raise KeyError(k)

    def table(self, t, atom):
        """t as a function of one byte: 256 values"""
        r = self.cache.get((t, atom))
        if r is None:
            r = self.cache[(t, atom)] = [self.value(t, {atom: v}) for v in range(256)]
        return r


def linear(tb, t, w, sets):
    """t as constant + sum of functions of single bytes, over the integers: (constant, {byte: {value: term}}), equal to t modulo 2^w; None when it is no such sum"""
    if T.is_c(t):
        return T.sval(t), {}
    at = tb.atoms_of(t)
    if at is None:
        return None
    if len(at) == 1:
        (a,) = at
        vals, f = tb.table(t, a), {}
        for v in members(sets.get(a, ALL)):
            x = vals[v]
            if x is None:
                return None
            f[v] = x - (1 << w) if x >> (w - 1) else x
        return 0, {a: f}
    k = t[0]
    if k == 'op' and t[1] in ('add', 'sub'):
        x, y = linear(tb, t[3], w, sets), linear(tb, t[4], w, sets)
        return None if x is None or y is None else plus(x, y, -1 if t[1] == 'sub' else 1)
    if k == 'op' and t[1] in ('mul', 'shl') and T.is_c(t[4]):
        x = linear(tb, t[3], w, sets)
        return None if x is None else plus((0, {}), x, 1 << t[4][1] if t[1] == 'shl' else T.sval(t[4]))
    if k == 'op' and t[1] == 'and' and T.is_c(t[4]) and t[4][1] & (t[4][1] + 1) == 0:
        x = linear(tb, t[3], w, sets)
        return x if x is not None and span(x)[0] >= 0 and span(x)[1] <= t[4][1] else None
    if k == 'cast' and t[1] in ('zext', 'sext', 'trunc'):
        x = linear(tb, t[4], t[2], sets)
        if x is None or t[1] == 'trunc':
            return x
        lo, hi = span(x)
        return x if lo >= (0 if t[1] == 'zext' else -(1 << (t[2] - 1))) and hi < 1 << (t[2] if t[1] == 'zext' else t[2] - 1) else None
    return None


def plus(x, y, n=1):
    """x + n * y"""
    fs = {a: dict(f) for a, f in x[1].items()}
    for a, f in y[1].items():
        old = fs.get(a)
        fs[a] = {v: n * k + (old[v] if old else 0) for v, k in f.items()}
    return x[0] + n * y[0], fs


def span(x):
    """the least and the greatest value of a linear form"""
    return (x[0] + sum(min(f.values()) for f in x[1].values()), x[0] + sum(max(f.values()) for f in x[1].values()))


def bits(tb, t, w, sets):
    """provenance of every bit of t, lowest first: 0, 1, (byte, the values of the byte for which it is set) or None; sets: the values a byte can have"""
    ALL_ = lambda a: sets.get(a, ALL)
    if T.is_c(t):
        return [t[1] >> i & 1 for i in range(w)]
    at = tb.atoms_of(t)
    if at is not None and len(at) == 1:
        (a,), out = at, []
        vals = tb.table(t, a)
        for i in range(w):
            m = 0
            for v in members(ALL_(a)):
                x = vals[v]
                if x is None:
                    return [None] * w
                m |= (x >> i & 1) << v
            out.append(0 if m == 0 else 1 if m == ALL_(a) else (a, m))
        return out
    k = t[0]
    if k == 'cast' and t[1] in ('zext', 'sext', 'trunc'):
        b = bits(tb, t[4], t[2], sets)
        return b[:w] if t[1] == 'trunc' else b + [0 if t[1] == 'zext' else b[-1]] * (w - t[2])
    if k == 'op':
        op = t[1]
        if op in ('shl', 'lshr') and T.is_c(t[4]):
            b, n = bits(tb, t[3], w, sets), t[4][1]
            return ([0] * n + b)[:w] if op == 'shl' else b[n:] + [0] * min(n, w)
        if op == 'mul' and T.is_c(t[4]) and t[4][1] and t[4][1] & (t[4][1] - 1) == 0:
            return bits(tb, ('op', 'shl', w, t[3], C(t[4][1].bit_length() - 1, w)), w, sets)
        if op == 'udiv' and T.is_c(t[4]) and t[4][1] and t[4][1] & (t[4][1] - 1) == 0:
            return bits(tb, ('op', 'lshr', w, t[3], C(t[4][1].bit_length() - 1, w)), w, sets)
        if op == 'urem' and T.is_c(t[4]) and t[4][1] and t[4][1] & (t[4][1] - 1) == 0:
            return bits(tb, ('op', 'and', w, t[3], C(t[4][1] - 1, w)), w, sets)
        if op in ('and', 'or', 'xor', 'add'):
            out = []
            for i, (x, y) in enumerate(zip(bits(tb, t[3], w, sets), bits(tb, t[4], w, sets))):
                if op == 'and' and 0 in (x, y):
                    r = 0
                elif op != 'and' and 0 in (x, y):
                    r = y if x == 0 else x
                elif op == 'and' and 1 in (x, y):
                    r = y if x == 1 else x
                elif op == 'or' and 1 in (x, y):
                    r = 1
                elif op == 'add':
                    return out + [None] * (w - i)
                elif x is None or y is None or isinstance(x, int) or isinstance(y, int) or x[0] != y[0]:
                    r = (x[0], x[1] ^ ALL_(x[0])) if op == 'xor' and y == 1 and x else (y[0], y[1] ^ ALL_(y[0])) if op == 'xor' and x == 1 and y else None
                else:
                    m = x[1] & y[1] if op == 'and' else x[1] | y[1] if op == 'or' else x[1] ^ y[1]
                    r = 0 if m == 0 else 1 if m == ALL_(x[0]) else (x[0], m)
                out.append(r)
            return out
    return [None] * w
