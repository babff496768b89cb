"""Value terms: what an SSA value is, as a function of the witness's inputs and
of the results of the events that happened before it.

  ('arg', i)                      i-th parameter of the witness
  ('c', n, w)                     constant
  ('res', name, targs, k)         result of the k-th occurrence of that event on the path
  ('op', opcode, w, a, b)         integer operation
  ('icmp', pred, a, b)
  ('cast', op, wfrom, wto, a)
  ('sel', c, a, b)
  ('ptr', base, off, ((t, scale)...))   address
  ('alloca', id) ('heap', site, k) ('g', name) ('fn', name) ('null',) ('undef',)
  ('load', base, off, size, epoch)      initial content of memory
  ('ev', t, idx)                  member of an aggregate
"""
import re


def C(n, w):
    return ('c', n & ((1 << w) - 1), w)


def is_c(t):
    return t[0] == 'c'


def sval(t):
    n, w = t[1], t[2]
    return n - (1 << w) if n >> (w - 1) else n


def width(ty):
    m = re.match(r'^i(\d+)$', ty)
    return int(m.group(1)) if m else None


TRUE, FALSE = ('c', 1, 1), ('c', 0, 1)

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def ptr(base, off=0, vars=()):
    if base[0] == 'ptr':
        d = {}
        for t, s in base[3] + tuple(vars):
            d[t] = d.get(t, 0) + s
        return ptr(base[1], base[2] + off, tuple(sorted(((t, s) for t, s in d.items() if s), key=repr)))
    if off == 0 and not vars:
        return base
    return ('ptr', base, off, tuple(vars))


def split_ptr(t):
    if t[0] == 'ptr':
        return t[1], t[2], t[3]
    return t, 0, ()


def width_of(t):
    k = t[0]
    if k == 'c':
        return t[2]
    if k == 'op':
        return t[2]
    if k == 'icmp':
        return 1
    if k == 'cast':
        return t[3]
    if k == 'sel':
        return width_of(t[2])
    if k == 'pure':
        return width(t[2])
    return None


def icmp(pred, a, b):
    if a[0] == 'null' and (is_c(b) or b[0] == 'null'):
        a = C(0, 64)
    if b[0] == 'null' and is_c(a):
        b = C(0, 64)
    if is_c(a) and is_c(b):
        x, y = a[1], b[1]
        sx, sy = sval(a), sval(b)
        r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
             'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pred]
        return TRUE if r else FALSE
    if a == b and a[0] != 'undef':
        return TRUE if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else FALSE
    if is_c(a):
        return icmp(SWAP[pred], b, a)
    if pred in ('eq', 'ne') and is_c(b) and a[0] == 'op' and a[1] in ('and', 'or'):
        known = bits(a, b[2])
        if any(x in (0, 1) and x != b[1] >> i & 1 for i, x in enumerate(known)):
            return FALSE if pred == 'eq' else TRUE
        if all(x in (0, 1) for x in known):
            return TRUE if pred == 'eq' else FALSE
    # pointers
    if pred in ('eq', 'ne'):
        ba, oa, va = split_ptr(a)
        bb, ob, vb = split_ptr(b)
        fresh = ('alloca', 'heap', 'g', 'fn')
        if b in (('null',), C(0, 64)) and ba[0] in fresh:
            return FALSE if pred == 'eq' else TRUE
        if b in (('null',), C(0, 64)) and a[0] == 'ptr' and ba[0] in ('arg', 'load') and not va and 0 < oa < 1 << 31:
            # within an object, after its start
            return FALSE if pred == 'eq' else TRUE
        if a[0] == 'null' and bb[0] in fresh:
            return FALSE if pred == 'eq' else TRUE
        if ba == bb and va == vb and (a[0] == 'ptr' or b[0] == 'ptr') and ba[0] != 'c':
            return TRUE if (oa == ob) == (pred == 'eq') else FALSE
        if ba == bb and va != vb and ba[0] != 'c':
            d = linear(binop('sub', 64, a, b), 64)
            n = {t: k for t, k in d.items() if t is not None and k % (1 << 64)}
            if not n:
                return TRUE if (d.get(None, 0) % (1 << 64) == 0) == (pred == 'eq') else FALSE
            if len(n) == 1:
                (t, k), = n.items()
                if k in (1, -1, (1 << 64) - 1):
                    c = d.get(None, 0)
                    return icmp(pred, t, C((-c if k == 1 else c) & ((1 << 64) - 1), 64))
        if ba != bb and ba[0] in ('alloca', 'heap') and bb[0] in ('alloca', 'heap'):
            return FALSE if pred == 'eq' else TRUE
    elif pred[0] == 'u':
        # objects of this function lie apart, in one order
        (ba, oa, va), (bb, ob, vb) = split_ptr(a), split_ptr(b)
        if ba == bb and ba[0] in ('alloca', 'heap') and not va and not vb and 0 <= oa < 1 << 31 and 0 <= ob < 1 << 31:
            # places in one object
            return icmp(pred, C(oa, 64), C(ob, 64))
        if ba != bb and ba[0] in ('alloca', 'heap') and bb[0] in ('alloca', 'heap'):
            return TRUE if (repr(ba) < repr(bb)) == (pred[1] == 'l') else FALSE
    # boolean compared with constant
    if is_c(b) and b[2] == 1 and pred in ('eq', 'ne'):
        return a if (b[1] == 1) == (pred == 'eq') else lnot(a)
    # zext(x) ==/!= c
    if is_c(b) and a[0] == 'cast' and a[1] == 'zext' and pred in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
        wf = a[2]
        if b[1] < (1 << wf):
            return icmp(pred, a[4], C(b[1], wf))
        return {'eq': FALSE, 'ne': TRUE, 'ult': TRUE, 'ule': TRUE, 'ugt': FALSE, 'uge': FALSE}[pred]
    if is_c(b) and b[1] == 0:
        if pred == 'ult':
            return FALSE
        if pred == 'uge':
            return TRUE
        if pred == 'ugt':
            pred = 'ne'
        if pred == 'ule':
            pred = 'eq'
    if is_c(b) and b[1] == 1 and pred == 'ult':
        return icmp('eq', a, C(0, b[2]))
    # (a ^ b) ==/!= 0
    if pred in ('eq', 'ne') and is_c(b) and b[1] == 0 and a[0] == 'op' and a[1] == 'xor':
        return icmp(pred, a[3], a[4])
    # x + c1 == c2
    if pred in ('eq', 'ne') and is_c(b) and a[0] == 'op' and a[1] == 'add' and is_c(a[4]):
        return icmp(pred, a[3], C(b[1] - a[4][1] & ((1 << b[2]) - 1), b[2]))
    if pred in ('eq', 'ne') and repr(a) > repr(b) and not is_c(b) and b[0] != 'null':
        a, b = b, a
    return ('icmp', pred, a, b)


def linear(t, w, k=1, out=None):
    """t as {atom: coefficient, None: constant} modulo 2**w"""
    out = {} if out is None else out
    if is_c(t):
        out[None] = out.get(None, 0) + k * t[1]
    elif t[0] == 'op' and t[1] == 'add' and t[2] == w:
        linear(t[3], w, k, out)
        linear(t[4], w, k, out)
    elif t[0] == 'op' and t[1] == 'sub' and t[2] == w:
        linear(t[3], w, k, out)
        linear(t[4], w, -k, out)
    elif t[0] == 'op' and t[1] == 'mul' and t[2] == w and is_c(t[4]):
        linear(t[3], w, k * t[4][1], out)
    elif t[0] == 'ptr' and w == 64:
        linear(t[1], w, k, out)
        out[None] = out.get(None, 0) + k * t[2]
        for v, s in t[3]:
            linear(v, w, k * s, out)
    else:
        out[t] = out.get(t, 0) + k
    return out


def unlinear(d, w):
    m = (1 << w) - 1
    r, c = None, d.get(None, 0) & m
    for t in sorted((t for t in d if t is not None), key=repr):
        k = d[t] & m
        if k == 0:
            continue
        x = t if k == 1 else ('op', 'mul', w, t, C(k, w))
        r = x if r is None else ('op', 'add', w, r, x)
    if r is None:
        return C(c, w)
    return r if c == 0 else ('op', 'add', w, r, C(c, w))


def lnot(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == 'icmp':
        return ('icmp', NEG[t[1]], t[2], t[3])
    if t[0] == 'op' and t[1] == 'xor' and t[4] == TRUE:
        return t[3]
    return ('op', 'xor', 1, t, TRUE)


def sdiv(x, y):
    return 0 if y == 0 else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)


def binop(op, w, a, b):
    m = (1 << w) - 1
    if is_c(a) and is_c(b):
        x, y = a[1], b[1]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y if y < w else 0,
                 'ashr': lambda: sval(a) >> y if y < w else 0,
                 'sdiv': lambda: sdiv(sval(a), sval(b)), 'srem': lambda: sval(a) - sval(b) * sdiv(sval(a), sval(b)),
                 'udiv': lambda: x // y if y else 0, 'urem': lambda: x % y if y else 0}[op]()
            return C(r & m, w)
        except KeyError:
            pass
    if op in ('add', 'mul', 'and', 'or', 'xor') and is_c(a):
        a, b = b, a
    if is_c(b):
        y = b[1]
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and y == 0:
            return a
        if op == 'and' and y == 0:
            return C(0, w)
        if op == 'and' and y == m:
            return a
        if op == 'or' and y == m:
            return C(m, w)
        if op == 'mul' and y == 1:
            return a
        if op == 'sub':
            return binop('add', w, a, C(-y, w))
        if op == 'lshr':
            if a[0] == 'cast' and a[1] == 'zext' and a[2] <= y:
                return C(0, w)
            if a[0] == 'op' and a[1] == 'shl' and a[4] == b and a[3][0] == 'cast' and a[3][1] == 'zext' and a[3][2] + y <= w:
                return a[3]
            if a[0] == 'op' and a[1] == 'or':
                p, q = binop(op, w, a[3], b), binop(op, w, a[4], b)
                if C(0, w) in (p, q):
                    return binop('or', w, p, q)
        if op == 'add' and a[0] == 'op' and a[1] == 'add' and is_c(a[4]):
            return binop('add', w, a[3], C(a[4][1] + y, w))
        if op == 'xor' and w == 1:
            return lnot(a)
        if op in ('and', 'or', 'xor') and a[0] == 'op' and a[1] == op and is_c(a[4]):
            return binop(op, w, a[3], C({'and': a[4][1] & y, 'or': a[4][1] | y, 'xor': a[4][1] ^ y}[op], w))
    if op == 'sub' and a == b:
        return C(0, w)
    if op == 'xor' and a == b:
        return C(0, w)
    if op in ('and', 'or') and a == b:
        return a
    if op == 'sub' or (op == 'add' and not is_c(b)):
        la, lb = linear(a, w), linear(b, w, 1 if op == 'add' else -1)
        if any(t is not None and lb.get(t) and (la[t] + lb[t]) & m == 0 for t in la):
            d = dict(la)
            for t, k in lb.items():
                d[t] = d.get(t, 0) + k
            return unlinear(d, w)
    if op in ('add', 'mul', 'and', 'or', 'xor') and not is_c(b) and repr(a) > repr(b):
        a, b = b, a
    return ('op', op, w, a, b)


def cast(op, wf, wt, a):
    if is_c(a):
        if op == 'sext':
            return C(sval(a), wt)
        return C(a[1], wt)
    if op == 'trunc' and a[0] == 'cast' and a[1] in ('zext', 'sext'):
        if a[2] == wt:
            return a[4]
        if a[2] > wt:
            return cast('trunc', a[2], wt, a[4])
        return cast(a[1], a[2], wt, a[4])
    if op == 'trunc' and a[0] == 'op' and a[1] == 'shl' and is_c(a[4]) and a[4][1] >= wt:
        return C(0, wt)
    if op == 'trunc' and a[0] == 'op' and a[1] in ('and', 'or', 'xor'):
        x, y = cast('trunc', wf, wt, a[3]), cast('trunc', wf, wt, a[4])
        if is_c(x) or is_c(y):
            return binop(a[1], wt, x, y)
    if op == 'zext' and a[0] == 'cast' and a[1] == 'zext':
        return cast('zext', a[2], wt, a[4])
    return ('cast', op, wf, wt, a)


def show(t, names=None):
    k = t[0]
    s = lambda x: show(x, names)
    if k == 'arg':
        return names[t[1]] if names and t[1] < len(names) and names[t[1]] else f'arg{t[1]}'
    if k == 'c':
        return str(t[1] if t[1] < (1 << 31) or t[2] < 64 else sval(t))
    if k == 'res':
        ta = ','.join(map(str, t[2]))
        return f'{t[1]}<{ta}>#{t[3]}'
    if k == 'op':
        return f'({s(t[3])} {t[1]} {s(t[4])})'
    if k == 'icmp':
        return f'({s(t[2])} {t[1]} {s(t[3])})'
    if k == 'cast':
        return f'{t[1]}{t[3]}({s(t[4])})'
    if k == 'sel':
        return f'({s(t[1])} ? {s(t[2])} : {s(t[3])})'
    if k == 'ptr':
        return f'&{s(t[1])}+{t[2]}' + ''.join(f'+{s(v)}*{sc}' for v, sc in t[3])
    if k == 'load':
        return f'*[{s(t[1])}+{t[2]}' + ''.join(f'+{s(v)}*{sc}' for v, sc in (t[5] if len(t) > 5 else ())) + ']' + (f'@{t[4]}' if t[4] else '')
    if k == 'phi':
        return f'phi{t[2]}'
    if k == 'ev':
        return f'{s(t[1])}.{t[2]}'
    if k == 'agg':
        return '{' + ', '.join(s(x) for x in t[1]) + '}'
    return str(k) + ''.join(':' + str(x) for x in t[1:])


def subterms(t):
    yield t
    if t[0] in ('op',):
        yield from subterms(t[3])
        yield from subterms(t[4])
    elif t[0] == 'icmp':
        yield from subterms(t[2])
        yield from subterms(t[3])
    elif t[0] == 'cast':
        yield from subterms(t[4])
    elif t[0] == 'sel':
        yield from subterms(t[1])
        yield from subterms(t[2])
        yield from subterms(t[3])
    elif t[0] == 'ptr':
        yield from subterms(t[1])
        for v, _ in t[3]:
            yield from subterms(v)
    elif t[0] == 'load':
        yield from subterms(t[1])
        for v, _ in (t[5] if len(t) > 5 else ()):
            yield from subterms(v)
    elif t[0] == 'ev':
        yield from subterms(t[1])
    elif t[0] in ('agg', 'pure'):
        for x in t[-1]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from subterms(x)


def parts(t):
    """all subterms, each once"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            if x[0] in ('op',):
                todo += [x[3], x[4]]
            elif x[0] == 'icmp':
                todo += [x[2], x[3]]
            elif x[0] == 'cast':
                todo.append(x[4])
            elif x[0] == 'sel':
                todo += x[1:4]
            elif x[0] in ('ptr', 'load', 'ev'):
                todo.append(x[1])
                todo += [v for v, _ in (x[3] if x[0] == 'ptr' else x[5] if x[0] == 'load' and len(x) > 5 else ())]
            elif x[0] in ('agg', 'pure'):
                todo += [y for y in x[-1] if isinstance(y, tuple) and y and isinstance(y[0], str)]
    return out


def evaluate(t, env):
    """substitute env ({term: bool or term}) into t and fold; a term"""
    if t in env:
        v = env[t]
        return v if isinstance(v, tuple) else TRUE if v else FALSE
    k = t[0]
    if k == 'icmp':
        n = lnot(t)
        if n in env:
            return FALSE if env[n] else TRUE
        a, b = evaluate(t[2], env), evaluate(t[3], env)
        r = icmp(t[1], a, b)
        if r != t and r[0] == 'icmp':
            if r in env:
                return TRUE if env[r] else FALSE
            if lnot(r) in env:
                return FALSE if env[lnot(r)] else TRUE
        return r
    if k == 'op':
        return binop(t[1], t[2], evaluate(t[3], env), evaluate(t[4], env))
    if k == 'cast':
        return cast(t[1], t[2], t[3], evaluate(t[4], env))
    if k == 'sel':
        c = evaluate(t[1], env)
        if c == TRUE:
            return evaluate(t[2], env)
        if c == FALSE:
            return evaluate(t[3], env)
        return ('sel', c, evaluate(t[2], env), evaluate(t[3], env))
    if k == 'ptr':
        b, o = evaluate(t[1], env), t[2]
        vs = []
        for v, sc in t[3]:
            v = evaluate(v, env)
            if is_c(v):
                o += sval(v) * sc
            else:
                vs.append((v, sc))
        return ptr(b, o, tuple(vs))
    return t


def worlds(facts, atoms):
    """all truth assignments of the atoms that the path facts allow"""
    out = [dict()]
    for a in atoms:
        if a in (TRUE, FALSE):
            continue
        v = facts.get(a)
        if v is None and lnot(a) in facts:
            v = not facts[lnot(a)]
        out = [dict(w, **{}) | {a: x} for w in out for x in ((True, False) if v is None else (v,))]
    return out


def points(facts, w):
    """representatives of all regions the path facts split the values of a w-bit variable into, if they only compare it (plus
    constants) with constants: each compared constant, its neighbours, and the extremes"""
    out = {0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1}
    for f in facts:
        for t in subterms(f):
            if t[0] == 'c':
                v = t[1]
                out |= {v - 1, v, v + 1, -v, -v - 1, 1 - v}
    return sorted({v & ((1 << w) - 1) for v in out})


def allows(facts, env):
    """no path fact is refuted by env"""
    return all(evaluate(f, env) != (FALSE if v else TRUE) for f, v in facts.items())


def lowbits(t, n, out=None, k=1):
    """t modulo 2**n as a linear form {atom: coefficient, None: constant}; atoms stand for their low bits"""
    out = {} if out is None else out
    m = 1 << n
    if is_c(t):
        out[None] = (out.get(None, 0) + k * t[1]) % m
    elif t[0] == 'op' and t[1] in ('add', 'sub'):
        lowbits(t[3], n, out, k)
        lowbits(t[4], n, out, k if t[1] == 'add' else -k)
    elif t[0] == 'op' and t[1] == 'mul' and is_c(t[4]):
        lowbits(t[3], n, out, k * t[4][1])
    elif t[0] == 'op' and t[1] == 'shl' and is_c(t[4]):
        lowbits(t[3], n, out, k << t[4][1])
    elif t[0] == 'op' and t[1] == 'and' and is_c(t[4]) and t[4][1] % m == m - 1:
        lowbits(t[3], n, out, k)
    elif t[0] == 'op' and t[1] == 'urem' and is_c(t[4]) and t[4][1] % m == 0:
        lowbits(t[3], n, out, k)
    elif t[0] == 'cast' and t[1] in ('zext', 'sext', 'trunc') and min(t[2], t[3]) >= n:
        lowbits(t[4], n, out, k)
    else:
        out[t] = (out.get(t, 0) + k) % m
    return {a: c % m for a, c in out.items() if c % m}


def bits(t, w):
    """provenance of every bit of t, lowest first: 0, 1, (atom, bit), or None when unknown"""
    if is_c(t):
        return [t[1] >> i & 1 for i in range(w)]
    k = t[0]
    if k == 'cast' and t[1] in ('zext', 'trunc', 'sext'):
        b = bits(t[4], t[2])
        if t[1] == 'trunc':
            return b[:w]
        return b + [0 if t[1] == 'zext' else b[-1]] * (w - t[2])
    if k == 'op':
        op = t[1]
        if op in ('shl', 'lshr') and is_c(t[4]):
            b, n = bits(t[3], w), t[4][1]
            return ([0] * n + b)[:w] if op == 'shl' else b[n:] + [0] * min(n, w)
        if op in ('and', 'or', 'xor', 'add'):
            a, b = bits(t[3], w), bits(t[4], w)
            out = []
            for i, (x, y) in enumerate(zip(a, b)):
                if op == 'and':
                    out.append(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else None)
                elif x == 0 or y == 0:
                    out.append(y if x == 0 else x)
                elif op == 'or':
                    out.append(1 if 1 in (x, y) else x if x == y else None)
                elif op == 'xor':
                    out.append(0 if x == y and x is not None else None)
                else:      # a carry: nothing is known from here on
                    out += [None] * (w - i)
                    break
            return out
        if op == 'mul' and is_c(t[4]) and t[4][1] & (t[4][1] - 1) == 0 and t[4][1]:
            return bits(('op', 'shl', w, t[3], C(t[4][1].bit_length() - 1, w)), w)
    if k == 'pure' and t[1] == 'bswap' and len(t[-1]) == 1:
        b = bits(t[-1][0], w)
        return [x for i in range(w // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]]
    return [(t, i) for i in range(w)]
