"""Value numbering of straight-line data flow.

Functions whose control flow does not depend on their data are read from unoptimised IR, with the sizes they are called with; every value they
compute is a node of a hash-consed graph in a normal form (words as concatenations of bytes, sums with their terms collected, bitwise functions
as truth tables of their operands, rotations), so that two ways to write the same word function of the same words get the same number.
Nothing is evaluated: input bytes are atoms.  A branch on a value that is not a constant is refused."""

MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64)}


class Refused(Exception):
    pass


class Graph:
    def __init__(self):
        self.ids, self.nodes, self.width = {}, [], []

    def mk(self, node, w):
        k = (node, w)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.nodes)
            self.nodes.append(node)
            self.width.append(w)
        return i

    def const(self, v, w):
        return self.mk(('c', v & ((1 << w) - 1)), w)

    def value(self, n):
        x = self.nodes[n]
        return x[1] if x[0] == 'c' else None

    def atom(self, name, w=8):
        return self.mk(('in', name), w)

    # words as bytes
    def bytes(self, n):
        w = self.width[n]
        if w == 1:
            raise Refused('bytes of a bit')
        x = self.nodes[n]
        if w == 8:
            return (n,)
        if x[0] == 'c':
            return tuple(self.const(x[1] >> 8 * k, 8) for k in range(w // 8))
        if x[0] == 'cat':
            return x[1]
        return tuple(self.mk(('byte', n, k), 8) for k in range(w // 8))

    def cat(self, bs):
        """bytes, least significant first"""
        bs = tuple(bs)
        if len(bs) == 1:
            return bs[0]
        w = 8 * len(bs)
        xs = [self.nodes[b] for b in bs]
        if all(x[0] == 'c' for x in xs):
            return self.const(sum(x[1] << 8 * k for k, x in enumerate(xs)), w)
        if all(x[0] == 'byte' and x[1] == xs[0][1] and x[2] == k for k, x in enumerate(xs)) and self.width[xs[0][1]] == w:
            return xs[0][1]
        return self.mk(('cat', bs), w)

    # bitwise functions: ('bits', operands, ((truth table, bits of the word it is for), ...))
    def table(self, n):
        x = self.nodes[n]
        full = (1 << self.width[n]) - 1
        if x[0] == 'c':
            return (), {k: m for k, m in (((False,), full & ~x[1]), ((True,), x[1])) if m}
        if x[0] == 'bits':
            return x[1], dict(x[2])
        if x[0] == 'cat':
            known = {8 * k: self.nodes[b][1] for k, b in enumerate(x[1]) if self.nodes[b][0] == 'c'}
            if known:
                ones = sum(v << k for k, v in known.items())
                fixed = sum(255 << k for k in known)
                leaf = self.mk(('cat', tuple(self.const(0, 8) if 8 * k in known else b for k, b in enumerate(x[1]))), self.width[n])
                return (leaf,), {k: m for k, m in (((False, True), full & ~fixed), ((True, True), ones), ((False, False), fixed & ~ones)) if m}
        return (n,), {(False, True): full}

    def bitwise(self, f, a, b):
        w = self.width[a]
        if w != self.width[b]:
            raise Refused('widths')
        if w > 8:
            pa, pb = self.bytes(a), self.bytes(b)
            out = [self.bitwise(f, x, y) for x, y in zip(pa, pb)]
            if all(self.nodes[o][0] in ('c', 'in', 'byte') for o in out):
                return self.cat(out)
        la, ta = self.table(a)
        lb, tb = self.table(b)
        ls = tuple(sorted(set(la) | set(lb)))
        if len(ls) > 8:
            la, ta, lb, tb = (a,), {(False, True): (1 << w) - 1}, (b,), {(False, True): (1 << w) - 1}
            ls = tuple(sorted({a, b}))
        res = {}
        for x, mx in ta.items():
            for y, my in tb.items():
                if mx & my:
                    t = []
                    for i in range(1 << len(ls)):
                        at = {l: i >> k & 1 for k, l in enumerate(ls)}
                        ia = sum(at[l] << k for k, l in enumerate(la))
                        ib = sum(at[l] << k for k, l in enumerate(lb))
                        t.append(bool(f(int(x[ia]), int(y[ib]))))
                    t = tuple(t)
                    res[t] = res.get(t, 0) | mx & my
        # drop the operands that do not matter
        k = 0
        while k < len(ls):
            if all(t[i] == t[i ^ (1 << k)] for t in res for i in range(len(t))):
                less = {}
                for t, m in res.items():
                    u = tuple(t[i] for i in range(len(t)) if not i >> k & 1)
                    less[u] = less.get(u, 0) | m
                res = less
                ls = ls[:k] + ls[k + 1:]
            else:
                k += 1
        if not ls:
            return self.const(res.get((True,), 0), w)
        if len(ls) == 1 and self.nodes[ls[0]][0] == 'cat':      # a concatenation with known bytes
            bs, known = list(self.nodes[ls[0]][1]), True
            for t, m in res.items():
                for k in range(len(bs)):
                    part = m >> 8 * k & 255
                    if part and t == (False, True):
                        known &= self.nodes[bs[k]][0] != 'c' and part == 255
            if known and all(t != (True, False) for t in res):
                ones, keep = res.get((True, True), 0), res.get((False, True), 0)
                return self.cat(b if keep >> 8 * k & 255 else self.const(ones >> 8 * k, 8) for k, b in enumerate(bs))
        if len(ls) == 1 and res == {(False, True): (1 << w) - 1}:
            return ls[0]
        return self.mk(('bits', ls, tuple(sorted(res.items()))), w)

    def or_(self, a, b):
        r = self.rotation(a, b)
        r = self.rotation(b, a) if r is None else r
        return r if r is not None else self.bitwise(lambda x, y: x | y, a, b)

    def rotation(self, a, b):
        x, y = self.nodes[a], self.nodes[b]
        w = self.width[a]
        if x[0] == 'shl' and y[0] == 'shr' and x[1] == y[1] and x[2] + y[2] == w:
            return self.rot(x[1], x[2])
        return None

    def and_(self, a, b):
        return self.bitwise(lambda x, y: x & y, a, b)

    def xor(self, a, b):
        return self.bitwise(lambda x, y: x ^ y, a, b)

    def not_(self, a):
        return self.xor(a, self.const(-1, self.width[a]))

    # shifts
    def rot(self, a, k):
        w = self.width[a]
        k %= w
        if k == 0:
            return a
        x = self.nodes[a]
        if x[0] == 'c':
            return self.const(x[1] << k | x[1] >> (w - k), w)
        if k % 8 == 0:
            bs = self.bytes(a)
            j = k // 8
            return self.cat(bs[-j:] + bs[:-j])
        if x[0] == 'rot':
            return self.rot(x[1], x[2] + k)
        return self.mk(('rot', a, k), w)

    def shl(self, a, k):
        w = self.width[a]
        v = self.value(a)
        if k >= w:
            raise Refused('shift of the whole width')
        if v is not None:
            return self.const(v << k, w)
        if k == 0:
            return a
        if k % 8 == 0:
            z = self.const(0, 8)
            return self.cat((z,) * (k // 8) + self.bytes(a)[:w // 8 - k // 8])
        return self.mk(('shl', a, k), w)

    def shr(self, a, k):
        w = self.width[a]
        v = self.value(a)
        if k >= w:
            raise Refused('shift of the whole width')
        if v is not None:
            return self.const(v >> k, w)
        if k == 0:
            return a
        if k % 8 == 0:
            z = self.const(0, 8)
            return self.cat(self.bytes(a)[k // 8:] + (z,) * (k // 8))
        return self.mk(('shr', a, k), w)

    # sums
    def terms(self, n):
        x = self.nodes[n]
        if x[0] == 'c':
            return x[1], {}
        if x[0] == 'sum':
            return x[1], dict(x[2])
        return 0, {n: 1}

    def scale(self, a, f, b=None, g=0):
        w = self.width[a]
        m = (1 << w) - 1
        c, t = self.terms(a)
        c, t = c * f & m, {k: v * f & m for k, v in t.items()}
        if b is not None:
            if self.width[b] != w:
                raise Refused('widths')
            d, u = self.terms(b)
            c = c + d * g & m
            for k, v in u.items():
                t[k] = t.get(k, 0) + v * g & m
        t = {k: v for k, v in t.items() if v}
        if not t:
            return self.const(c, w)
        if c == 0 and list(t.values()) == [1]:
            return next(iter(t))
        return self.mk(('sum', c, tuple(sorted(t.items()))), w)

    def add(self, a, b):
        r = self.rotation(a, b) if self.width[a] == self.width[b] else None
        r = self.rotation(b, a) if r is None and self.width[a] == self.width[b] else r
        if r is None and self.width[a] == self.width[b] and self.width[a] % 8 == 0 and 'cat' in (self.nodes[a][0], self.nodes[b][0]) and all(
                0 in (self.value(x), self.value(y)) for x, y in zip(self.bytes(a), self.bytes(b))):
            return self.bitwise(lambda x, y: x | y, a, b)          # no two bits meet
        return r if r is not None else self.scale(a, 1, b, 1)

    def sub(self, a, b):
        return self.scale(a, 1, b, -1)

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            v = self.value(y)
            if v is not None:
                return self.scale(x, v)
        return self.mk(('mul', *sorted((a, b))), self.width[a])

    # widths
    def trunc(self, a, w):
        if w == 1:
            v = self.value(a)
            if v is None:
                raise Refused('bit of a value')
            return self.const(v & 1, 1)
        v = self.value(a)
        if v is not None:
            return self.const(v, w)
        x = self.nodes[a]
        if x[0] == 'sum' and all(self.nodes[k][0] == 'cat' for k, _ in x[2]):
            r = self.const(x[1], w)
            for k, f in x[2]:
                r = self.scale(r, 1, self.trunc(k, w), f)
            return r
        return self.cat(self.bytes(a)[:w // 8])

    def zext(self, a, w):
        v = self.value(a)
        if v is not None:
            return self.const(v, w)
        bs = self.bytes(a)
        return self.cat(bs + (self.const(0, 8),) * (w // 8 - len(bs)))

    def sext(self, a, w):
        v = self.value(a)
        if v is None:
            raise Refused('sign extension of a value')
        k = self.width[a]
        return self.const(v - (1 << k) if v >> (k - 1) else v, w)


def bits(ty):
    return 64 if ty == 'ptr' else int(ty[1:]) if ty[:1] == 'i' and ty[1:].isdigit() else None


class Run:
    """one function, with constants where its control flow needs them"""
    def __init__(self, mod, graph, limit=20000000):
        self.mod, self.g = mod, graph
        self.mem = {}
        self.regions = 0
        self.steps = 0
        self.limit = limit
        self.fns = set()

    def region(self):
        self.regions += 1
        return self.regions

    def store(self, p, v, n):
        m = self.mem.setdefault(p[1], {})
        if isinstance(v, tuple):
            for k in range(8):
                m[p[2] + k] = ('part', v, k)
            return
        if self.g.width[v] == 1:
            v = self.g.const(self.g.value(v), 8) if self.g.value(v) is not None else None
        for k, b in enumerate(self.g.bytes(v)[:n]):
            m[p[2] + k] = b

    def load(self, p, ty, n):
        m = self.mem.get(p[1], {})
        bs = []
        for k in range(n):
            b = m.get(p[2] + k)
            if b is None:
                g = self.mod.globals.get(p[1])
                if g and 'bytes' in g and 0 <= p[2] + k < len(g['bytes']):
                    b = self.g.const(g['bytes'][p[2] + k], 8)
                else:
                    b = self.g.mk(('undefined', p[1], p[2] + k, self.steps), 8)
            bs.append(b)
        if isinstance(bs[0], tuple):
            if n == 8 and all(isinstance(b, tuple) and b[1] == bs[0][1] and b[2] == k for k, b in enumerate(bs)):
                return bs[0][1]
            raise Refused('part of a pointer')
        w = bits(ty)
        r = self.g.cat(bs)
        return self.g.trunc(r, 1) if w == 1 else r

    def call(self, name, args, depth=0):
        g = self.g
        fn = self.mod.fns.get(name)
        if fn is None:
            raise Refused(f'call of {name}')
        if depth > 60:
            raise Refused('recursion')
        self.fns.add(name)
        env = {}

        def val(o):
            k = o[0]
            if k == 'v':
                return env[o[1]]
            if k == 'a':
                return args[o[1]]
            if k == 'c' or k == 'i':
                return g.const(int(o[1]), int(o[2]))
            if k == 'g':
                return ('p', o[1], 0)
            if k == 'off':
                p = val(o[1])
                return ('p', p[1], p[2] + o[2])
            if k == 'null':
                return ('p', None, 0)
            if k in ('undef', 'zero'):
                return g.const(0, bits(o[1]) or 64)
            if k == 'md':
                return None
            if k == 'f':
                return g.atom(('number', o[1]), 64)
            raise Refused(f'operand {o}')

        def num(o):
            v = val(o) if isinstance(o, list) else o
            c = g.value(v) if not isinstance(v, tuple) else None
            if c is None:
                raise Refused(f'{name}: a size or a choice depends on the data')
            return c

        prev, b = None, fn.entry
        while True:
            insts = fn.blocks[b]
            phis = [i for i in insts if i['op'] == 'phi']
            news = [(i['id'], val(next(x[1] for x in i['in'] if x[0] == prev))) for i in phis]
            env.update(news)
            nxt = None
            for i in insts:
                op = i['op']
                if op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.limit:
                    raise Refused('too many steps')
                o = i.get('ops', [])
                if op == 'alloca':
                    env[i['id']] = ('p', self.region(), 0)
                elif op == 'load':
                    p = val(o[0])
                    env[i['id']] = self.load(p, i['ty'], i['sz'])
                elif op == 'store':
                    self.store(val(o[1]), val(o[0]), i['sz'])
                elif op == 'getelementptr':
                    p = val(o[0])
                    off = p[2] + i['goff']
                    for v, s in i['gvars']:
                        x = val(v)
                        c = num(v)
                        w = g.width[x]
                        off += (c - (1 << w) if c >> (w - 1) else c) * s
                    env[i['id']] = ('p', p[1], off)
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
                    a, c = val(o[0]), val(o[1])
                    env[i['id']] = {'add': g.add, 'sub': g.sub, 'mul': g.mul, 'and': g.and_, 'or': g.or_, 'xor': g.xor}[op](a, c)
                elif op in ('shl', 'lshr'):
                    env[i['id']] = (g.shl if op == 'shl' else g.shr)(val(o[0]), num(o[1]))
                elif op in ('udiv', 'urem'):
                    x, y, w = num(o[0]), num(o[1]), bits(i['ty'])
                    env[i['id']] = g.const(x // y if op == 'udiv' else x % y, w)
                elif op in ('zext', 'sext', 'trunc'):
                    env[i['id']] = getattr(g, op)(val(o[0]), bits(i['ty']))
                elif op in ('bitcast', 'freeze'):
                    env[i['id']] = val(o[0])
                elif op == 'ptrtoint' or op == 'inttoptr':
                    raise Refused(op)
                elif op == 'icmp':
                    x, y = val(o[0]), val(o[1])
                    pr = i['pred']
                    if isinstance(x, tuple) or isinstance(y, tuple):
                        if not (isinstance(x, tuple) and isinstance(y, tuple)) or x[1] != y[1] and pr not in ('eq', 'ne'):
                            raise Refused('comparison of pointers')
                        u, v = (x[2], y[2]) if x[1] == y[1] else (0, 1)
                        w = 64
                    else:
                        if x == y and pr in ('eq', 'ne', 'ule', 'uge', 'ult', 'ugt', 'sle', 'sge', 'slt', 'sgt'):
                            env[i['id']] = g.const(pr in ('eq', 'ule', 'uge', 'sle', 'sge'), 1)
                            continue
                        u, v, w = num(o[0]), num(o[1]), g.width[x]
                    if pr[0] == 's':
                        u, v = (q - (1 << w) if q >> (w - 1) else q for q in (u, v))
                    r = {'eq': u == v, 'ne': u != v, 'lt': u < v, 'le': u <= v, 'gt': u > v, 'ge': u >= v}[pr if pr in ('eq', 'ne') else pr[1:]]
                    env[i['id']] = g.const(r, 1)
                elif op == 'select':
                    env[i['id']] = val(o[1]) if num(o[0]) else val(o[2])
                elif op in ('call', 'invoke'):
                    r = self.special(i, [val(x) for x in o], num)
                    if r is NotImplemented:
                        if 'callee' not in i:
                            raise Refused('indirect call')
                        r = self.call(i['callee'], [val(x) for x in o], depth + 1)
                    if 'id' in i:
                        env[i['id']] = r
                    if op == 'invoke':
                        nxt = i['normal']
                elif op == 'br':
                    nxt = i['succ'][0] if not o or num(o[0]) else i['succ'][1]
                elif op == 'switch':
                    c = num(o[0])
                    nxt = next((t for v, t in i['cases'] if num(v) == c), i['default'])
                elif op == 'ret':
                    return val(o[0]) if o else None
                else:
                    raise Refused(f'{name}: {op}')
            if nxt is None:
                raise Refused(f'{name}: no way on')
            prev, b = b, nxt

    def special(self, i, args, num):
        g = self.g
        c = i.get('callee', '')
        if c.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')):
            return None
        if c.startswith(('llvm.memcpy', 'llvm.memmove')) or c in ('memcpy', 'memmove'):
            d, s, n = args[0], args[1], num(args[2])
            bs = [self.mem.get(s[1], {}).get(s[2] + k) for k in range(n)]
            bs = [self.load(('p', s[1], s[2] + k), 'i8', 1) if x is None else x for k, x in enumerate(bs)]
            m = self.mem.setdefault(d[1], {})
            for k, x in enumerate(bs):
                m[d[2] + k] = x
            return d
        if c.startswith('llvm.memset') or c == 'memset':
            d, v, n = args[0], args[1], num(args[2])
            m = self.mem.setdefault(d[1], {})
            v = g.trunc(v, 8) if g.width[v] > 8 else v
            for k in range(n):
                m[d[2] + k] = v
            return d
        if c.startswith(('llvm.fshl', 'llvm.fshr')):
            k = num(args[2])
            if args[0] == args[1]:
                return g.rot(args[0], k if c.startswith('llvm.fshl') else g.width[args[0]] - k)
            raise Refused(c)
        if c == 'strlen':
            k = 0
            while True:
                v = g.value(self.load(('p', args[0][1], args[0][2] + k), 'i8', 1))
                if v is None:
                    raise Refused('length of unknown text')
                if v == 0:
                    return g.const(k, 64)
                k += 1
        if c.startswith('llvm.bswap'):
            return g.cat(g.bytes(args[0])[::-1])
        if c.startswith('llvm.expect'):
            return args[0]
        if c.startswith(('llvm.umin', 'llvm.umax')):
            return g.const((min if 'umin' in c else max)(num(args[0]), num(args[1])), g.width[args[0]])
        return NotImplemented
