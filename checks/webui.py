"""What is rendered in a document is what the spec says of the present state."""
import itertools
from sa import core, terms as T
from sa.terms import C, is_c


# ---- values: texts are tuples of bytes; a byte is a number or (word, which)

def lit(s):
    return tuple(s.encode())


def word(i):
    w = ('pure', 'txt', 'i64', (C(i, 32),))
    return tuple((w, j) for j in range(8))


class Val:
    """a value of the state: how it is written in the program, and what it is"""
    def __init__(self, cpp, text=None, kind=None, num=None):
        self.cpp, self.text, self.kind, self.num = cpp, text, kind, num


def X(i): return Val(f'str({i})', word(i), 'text')
def L(s): return Val(f'std::string("{s}")', lit(s), 'text')
def N(n): return Val(f'int{{{n}}}', lit(str(n)), 'int', n)
def Bo(b): return Val('true' if b else 'false', lit('1' if b else '0'), 'bool', b)
def As(t, n): return Val(f'{t}{{{n}}}', lit(str(n)), 'int', n)


def Opt(v=None): return Val(f'nbdl::optional<std::string>{{{v.cpp if v else ""}}}', v.text if v else None, 'text' if v else 'nothing')
def Var(v): return Val(f'nbdl::variant<std::string, int>{{{v.cpp}}}', v.text, v.kind, v.num)


class Rows(Val):
    def __init__(self, *rows):
        self.rows, self.kind = rows, 'rows'
        row = lambda r: 'hana::make_map(%s)' % ', '.join(f'hana::make_pair("{k}"_s, {v.cpp})' for k, v in r.items())  # noqa: E731
        self.cpp = 'rows(' + ', '.join(row(r) for r in rows) + ')'


# ---- specs: how they are written in the program, and what they show of a state

def q(s):
    return f'"{s}"_s'


class P:
    """a path"""
    def __init__(self, *keys, var=None):
        self.keys, self.var = keys, var

    def cpp(self):
        return 'get(' + ', '.join(([self.var] if self.var else []) + [q(k) for k in self.keys]) + ')'

    def of(self, st):
        x = st[self.var] if self.var else st
        for k in self.keys:
            x = x[k]
        return x


class M:
    """the value of the match around"""
    def __init__(self, var):
        self.var = var

    def cpp(self):
        return self.var

    def of(self, st):
        return st[self.var]


def part_cpp(p):
    return q(p) if isinstance(p, str) else p.cpp()


def part(p, st):
    return lit(p) if isinstance(p, str) else p.of(st).text if isinstance(p, (P, M)) else p.show(st)


class Cat:
    def __init__(self, *ps):
        self.ps = ps

    def cpp(self):
        return 'concat(' + ', '.join(map(part_cpp, self.ps)) + ')'

    def show(self, st):
        return tuple(b for p in self.ps for b in part(p, st))


def choose(b, st):
    """the branch that is taken and the state with its value"""
    v = b.path.of(st)
    for t, sub in b.whens:
        if b.how == 'match' and t in (v.kind, None) or b.how == 'match_if' and (t is None or t == v.text):
            return sub, v
    raise core.AnalysisError('no branch')


TYPES = {'text': 'std::string', 'int': 'int', 'nothing': 'nbdl::nothing', 'bool': 'bool', None: ''}
_n = itertools.count()


class Branch:
    """match and match_if; a branch is a spec or a function of a path"""
    def __init__(self, how, path, *whens):
        self.how, self.path, self.whens = how, path, whens

    def inst(self, sub, st, v):
        if callable(sub):
            return sub(M('_m')), {**st, '_m': v}
        return sub, st

    def cpp(self):
        out = []
        for t, sub in self.whens:
            if callable(sub):
                x = f'x{next(_n)}'
                s = f'[=](auto {x}) {{ return {part_cpp(sub(M(x)))}; }}'
            else:
                s = '' if sub is None else part_cpp(sub)
            out.append(f'when<{TYPES[t]}>({s})' if self.how == 'match' else f'otherwise({s})' if t is None else f'cond(equal({q(bytes(t).decode())}), {s})')
        return f'{self.how}({self.path.cpp()}, ' + ', '.join(out) + ')'

    def show(self, st):                                  # as a part of a text
        sub, v = choose(self, st)
        sub, st = self.inst(sub, st, v)
        return part(sub, st)

    def nodes(self, st):
        sub, v = choose(self, st)
        sub, st = self.inst(sub, st, v)
        return [] if sub is None else sub.nodes(st)


def match(p, *w): return Branch('match', p, *w)
def match_if(p, *w): return Branch('match_if', p, *[(lit(t) if t else None, s) for t, s in w])


class Text:
    def __init__(self, p):
        self.p = p

    def cpp(self):
        return f'text_node({self.p if isinstance(self.p, str) and self.p.startswith("hana::") else part_cpp(self.p)})'

    def nodes(self, st):
        if isinstance(self.p, str) and self.p.startswith('hana::'):
            return [('text', lit(self.p[self.p.index('<') + 1:-1]))]
        return [('text', part(self.p, st))]


class El:
    def __init__(self, tag, *subs):
        self.tag, self.subs = tag, subs

    def cpp(self):
        return f'element({", ".join([q(self.tag)] + [s.cpp() for s in self.subs])})'

    def nodes(self, st):
        e = {'attrs': {}, 'cls': set(), 'props': {}, 'kids': [], 'on': []}
        for s in self.subs:
            if isinstance(s, On):
                s.apply(e, st)
            else:
                e['kids'] += s.nodes(st)
        return [('el', self.tag, e)]


class On:
    """something said of the element around"""


class Attr(On):
    def __init__(self, name, p):
        self.name, self.p = name, p

    def cpp(self):
        return f'attribute({q(self.name)}, {part_cpp(self.p)})'

    def apply(self, e, st):
        e['attrs'][self.name] = part(self.p, st)
        if self.name == 'class':
            e['cls'] = set()


class Prop(Attr):
    def cpp(self):
        return f'set_property({q(self.name)}, {part_cpp(self.p)})'

    def apply(self, e, st):
        e['props'][self.name] = part(self.p, st)


class Html(On):
    def __init__(self, s):
        self.s = s

    def cpp(self):
        return f'unsafe_set_inner_html({q(self.s)})'

    def apply(self, e, st):
        e['kids'] = [('html', lit(self.s))]


class AttrIf(On):
    def __init__(self, name, path, pred, cpp):
        self.name, self.path, self.pred, self.pcpp = name, path, pred, cpp

    def cpp(self):
        return f'add_attribute_if({q(self.name)}, {self.path.cpp()}, {self.pcpp})'

    def apply(self, e, st):
        if self.pred(self.path.of(st)):
            e['attrs'][self.name] = ()


class ClassIf(AttrIf):
    def cpp(self):
        return f'add_class_if({q(self.name)}, {self.path.cpp()}, {self.pcpp})'

    def apply(self, e, st):
        (e['cls'].add if self.pred(self.path.of(st)) else e['cls'].discard)(self.name)


class ClassWhen(On):
    def __init__(self, kind, name, path):
        self.kind, self.name, self.path = kind, name, path

    def cpp(self):
        return f'add_class_when<{TYPES[self.kind]}>({q(self.name)}, {self.path.cpp()})'

    def apply(self, e, st):
        (e['cls'].add if self.path.of(st).kind == self.kind else e['cls'].discard)(self.name)


class Event(On):
    """a listener; who: what the handler is and what it does to the text a"""
    def __init__(self, name, who, to, *params):
        self.name, self.who, self.to, self.params = name, who, (to,) if isinstance(to, int) else to, params

    def handler(self):
        return ', '.join([f'told<{self.who}>{{}}' if self.to is None else f'asks<{self.who}, {", ".join(map(str, self.to))}>{{}}'] + [part_cpp(p) if p != 'event' else 'get(event_data)' for p in self.params])

    def cpp(self):
        return f'event_attribute({q(self.name)}, {self.handler()})'

    def heard(self, st):
        return (self.who, tuple('event' if p == 'event' else part(p, st) for p in self.params), self.to)

    def apply(self, e, st):
        e['on'].append((self.name, self.heard(st)))


class Upload(Event):
    """a file input that nobody sees; the element around passes clicks on"""
    def __init__(self, who, to, *params):
        super().__init__('change', who, to, *params)

    def cpp(self):
        return f'hidden_file_input({self.handler()})'

    def apply(self, e, st):
        e['on'].append(('click', 'pass on'))
        e['kids'].append(('el', 'input', {'attrs': {'type': lit('file')}, 'cls': set(), 'props': {}, 'kids': [], 'on': [('change', self.heard(st))]}))


class Each:
    def __init__(self, path, sub):
        self.path, self.sub, self.x = path, sub, f'x{next(_n)}'

    def cpp(self):
        return f'for_each({self.path.cpp()}, [](auto {self.x}) {{ return {self.sub(self.x).cpp()}; }})'

    def nodes(self, st):
        return [n for r in self.path.of(st).rows for n in self.sub(self.x).nodes({**st, self.x: r})]


def norm(nodes):
    """neighbouring texts are one, empty texts are none, a span that says nothing is what is in it"""
    out = []

    def put(n):
        if n[0] == 'text':
            if not n[1]:
                return
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + n[1])
                return
        if n[0] == 'el':
            e = n[2]
            if n[1] == 'span' and not e['attrs'] and not e['cls'] and not e['props'] and not e['on']:
                for k in e['kids']:
                    put(k)
                return
            out.append(('el', n[1], tuple(sorted(e['attrs'].items())), tuple(sorted(e['cls'])), tuple(sorted(e['props'].items())), norm(e['kids']), tuple(sorted(x[0] for x in e['on']))))
            return
        out.append(n)
    for n in nodes:
        put(n)
    return tuple(out)


def show(nodes):
    tx = lambda t: ''.join(chr(b) if isinstance(b, int) else '?' if b[1] else f'<{b[0][3][0][1]}>' if b[0][0] == 'pure' else '<' + T.show(b[0])[:80] + '>' for b in t)  # noqa: E731
    out = []
    for n in nodes:
        if n[0] == 'el':
            at = ''.join(f' {k}="{tx(v)}"' for k, v in n[2]) + ''.join(f' +{c}' for c in n[3]) + ''.join(f' .{k}="{tx(v)}"' for k, v in n[4]) + ''.join(f' @{k}' for k in n[6])
            out.append(f'<{n[1]}{at}>{show(n[5])}</{n[1]}>')
        else:
            out.append(tx(n[1]) if n[0] == 'text' else f'[{tx(n[1])}]')
    return ''.join(out)


# ---- the document, as the events say

class Wrong(Exception):
    pass


def bytes_of(t, n):
    if is_c(t):
        return [t[1] >> 8 * i & 255 for i in range(n)]
    if t[0] == 'cast' and t[1] in ('zext', 'trunc') and t[2] % 8 == 0 and t[3] == 8 * n:
        y = bytes_of(t[4], t[2] // 8)
        return (y + [0] * n)[:n]
    if t[0] == 'op' and t[2] == 8 * n and t[1] in ('shl', 'lshr') and is_c(t[4]) and t[4][1] % 8 == 0:
        x, k = bytes_of(t[3], n), t[4][1] // 8
        return ([0] * k + x)[:n] if t[1] == 'shl' else x[k:] + [0] * min(k, n)
    if t[0] == 'op' and t[2] == 8 * n and t[1] in ('or', 'and'):
        out = []
        for a, b in zip(bytes_of(t[3], n), bytes_of(t[4], n)):
            if isinstance(a, int) and isinstance(b, int):
                out.append(a | b if t[1] == 'or' else a & b)
            elif t[1] == 'or' and (a == 0 or b == 0):
                out.append(b if a == 0 else a)
            elif t[1] == 'and' and (a in (0, 255) or b in (0, 255)):
                out.append(0 if 0 in (a, b) else b if a == 255 else a)
            else:
                out.append((t, len(out)))
        return out
    return [(t, i) for i in range(n)]


def text(t):
    if t[0] == 'pure' and t[1] == 'js_text':
        if not is_c(t[3][0]) or t[3][0][1] > 32:
            raise Wrong('a text whose length depends on what is in it' if not is_c(t[3][0]) else f'a text of {t[3][0][1]} bytes')
        return tuple(bytes_of(b, 1)[0] for b in t[3][1:1 + t[3][0][1]])
    if t[0] == 'pure' and t[1] == 'js_number' and is_c(t[3][0]):
        return lit(str(t[3][0][1]))
    raise Wrong(f'not a text: {T.show(t)}')


def name(t):
    return ''.join(chr(b) if isinstance(b, int) else '?' for b in text(t))


class Node:
    def __init__(self, kind, tag=None, value=()):
        self.kind, self.tag, self.value, self.parent = kind, tag, value, None
        self.attrs, self.cls, self.props, self.kids, self.on = {}, set(), {}, [], []

    def tree(self):
        if self.kind != 'el':
            return (self.kind, self.value)
        return ('el', self.tag or 'span', {'attrs': self.attrs, 'cls': self.cls, 'props': self.props, 'kids': [k.tree() for k in self.kids], 'on': self.on})

    def leave(self):
        if self.parent is not None:
            self.parent.kids.remove(self)
            self.parent = None

    def put(self, i, k):
        """at i; of a fragment, what is in it"""
        for x in list(k.kids) if k.kind == 'fragment' else [k]:
            before = self.kids[i] if i < len(self.kids) else None
            if x is before:
                i += 1
                continue
            up = self
            while up is not None:
                if up is x:
                    raise Wrong('puts a node into itself')
                up = up.parent
            x.leave()
            i = self.kids.index(before) if before is not None else len(self.kids)
            self.kids.insert(i, x)
            x.parent = self
            i += 1

    def clear(self):
        for k in self.kids:
            k.parent = None
        self.kids = []


class Range:
    start = end = (None, 0)


class Doc:
    def __init__(self):
        self.target = Node('el', 'body')
        self.of = {('pure', 'js_target', 'i64', ()): self.target}
        self.vals, self.nodes = {}, []          # what is in the places for values; every element there was

    def node(self, t):
        x = self.of.get(t)
        if x is None and t in self.of:
            raise Wrong('used as a node: null')
        if x is None:
            raise Wrong('used as a node: ' + ('undefined' if t[:2] == ('pure', 'js_undefined') else T.show(t)))
        return x

    def event(self, e):
        a = e.args
        if e.name == 'evt_r_js_handler':
            self.vals[a[0]], self.vals[a[1]] = ('handler', a[0]), 'event'
        elif e.name == 'evt_r_js_input':
            f = self.vals[a[0]] = Node('el', 'input')
            f.attrs['type'] = lit('file')
            self.nodes.append(f)
            self.vals[a[1]] = ('pass on', f)
        elif e.name == 'evt_r_js_val_get':
            if a[0] not in self.vals:
                raise Wrong('a value is read from where none is')
            self.of[e.res] = self.vals[a[0]]
        elif e.name == 'evt_r_js_val_gone':
            self.vals.pop(a[0], None)
        elif e.name == 'evt_r_js_get':
            n, what = self.node(a[0]), name(a[1])
            if what == 'classList':
                self.of[e.res] = ('cls', n)
            elif what in ('parentNode', 'parentElement'):
                self.of[e.res] = n.parent
            elif what in ('lastChild', 'firstChild'):
                self.of[e.res] = n.kids[-1 if what == 'lastChild' else 0] if n.kids else None
            elif what in ('nextSibling', 'previousSibling'):
                i = n.parent.kids.index(n) + (1 if what == 'nextSibling' else -1) if n.parent else -1
                self.of[e.res] = n.parent.kids[i] if n.parent and 0 <= i < len(n.parent.kids) else None
            else:
                raise core.AnalysisError(f'nothing is known of {what} in a document')
        elif e.name == 'evt_r_js_set':
            n, what = self.node(a[0]), name(a[1])
            if what in ('innerHTML', 'textContent') and n.kind == 'el':
                n.clear()
                t = text(a[2])
                if t:
                    n.put(0, Node('html' if what == 'innerHTML' else 'text', value=t))
            elif n.kind == 'text' and what in ('nodeValue', 'textContent', 'data'):
                n.value = text(a[2])
            else:
                n.props[what] = text(a[2])
        elif e.name.startswith('evt_r_js_call'):
            if a[0][:2] == ('pure', 'js_global'):
                what = name(a[1])
                if name(a[0][3][0]) != 'document':
                    raise core.AnalysisError(f'nothing is known of {name(a[0][3][0])}')
                if what == 'createElement':
                    x = Node('el', name(a[2]))
                elif what == 'createTextNode':
                    x = Node('text', value=text(a[2]))
                elif what == 'createDocumentFragment':
                    x = Node('fragment')
                elif what == 'createRange':
                    x = Range()
                else:
                    raise core.AnalysisError(f'nothing is known of {what} of a document')
                self.of[e.res] = x
                if isinstance(x, Node):
                    self.nodes.append(x)
                return
            n, what = self.node(a[0]), name(a[1])
            if isinstance(n, Range):
                if what in ('setStartAfter', 'setStartBefore', 'setEndAfter', 'setEndBefore'):
                    setattr(n, 'start' if 'Start' in what else 'end', (self.node(a[2]), int('After' in what)))
                elif what == 'deleteContents':
                    (x, i), (y, j) = n.start, n.end
                    if x.parent is None or x.parent is not y.parent:
                        raise Wrong('deletes a range that is of no one parent')
                    for k in x.parent.kids[x.parent.kids.index(x) + i:y.parent.kids.index(y) + j]:
                        k.leave()
                else:
                    raise core.AnalysisError(f'nothing is known of {what} of a range')
            elif isinstance(n, tuple):
                if n[0] != 'cls' or what not in ('add', 'remove'):
                    raise core.AnalysisError(f'nothing is known of {what} of {n[0]}')
                (n[1].cls.add if what == 'add' else n[1].cls.discard)(name(a[2]))
            elif what in ('appendChild', 'append', 'prepend'):
                k = self.node(a[2])
                n.put(0 if what == 'prepend' else len(n.kids), k)
                self.of[e.res] = k
            elif what == 'insertBefore':
                k, at = self.node(a[2]), self.node(a[3])
                if at.parent is not n:
                    raise Wrong('puts a node before one that is not there')
                n.put(n.kids.index(at), k)
                self.of[e.res] = k
            elif what in ('before', 'after'):
                if n.parent is not None:
                    n.parent.put(n.parent.kids.index(n) + (what == 'after'), self.node(a[2]))
            elif what in ('replaceChild', 'replaceWith'):
                k, old = self.node(a[2]), self.node(a[3]) if what == 'replaceChild' else n
                n = n if what == 'replaceChild' else n.parent
                if n is None or old.parent is not n:
                    raise Wrong('replaces a node that is not there')
                if k is not old:
                    n.put(n.kids.index(old), k)
                    old.leave()
            elif what == 'replaceChildren' and len(a) == 2:
                n.clear()
            elif what == 'remove':
                n.leave()
            elif what == 'removeChild':
                k = self.node(a[2])
                if k.parent is not n:
                    raise Wrong('removes a node that is not there')
                k.leave()
            elif what == 'setAttribute':
                n.attrs[name(a[2])] = text(a[3])
                if name(a[2]) == 'class':
                    n.cls = set()
            elif what == 'removeAttribute':
                n.attrs.pop(name(a[2]), None)
            elif what == 'addEventListener':
                h = self.of.get(a[3])
                if not isinstance(h, tuple) or h[0] not in ('handler', 'pass on'):
                    raise Wrong('listens with what is no function')
                if (name(a[2]), h) in n.on:
                    raise Wrong('listens twice with one function')
                n.on.append((name(a[2]), h))
            elif what == 'removeEventListener':
                h = (name(a[2]), self.of.get(a[3]))
                if h not in n.on:
                    raise Wrong('removes a listener that is not there')
                n.on.remove(h)
            else:
                raise core.AnalysisError(f'nothing is known of {what} of an element')


# ---- the specs and the states they are shown in

ident = ('hana::id', lambda v: bool(v.num))
negate = ('hana::not_', lambda v: not v.num)
big = ('[](int x) { return x > 9; }', lambda v: v.num > 9)


def attr_if(name, path, p): return AttrIf(name, path, p[1], p[0])
def class_if(name, path, p): return ClassIf(name, path, p[1], p[0])


a, b, o, v, f, g, n, l, k = P('a'), P('b'), P('o'), P('v'), P('f'), P('g'), P('n'), P('l'), P('k')
OPT = [Opt(), Opt(X(0)), Opt(X(1))]
VAR = [Var(X(0)), Var(N(5)), Var(X(1)), Var(N(42))]
TXT = [X(0), X(1), L('')]
WORDS = [L('one'), L('two'), L('other')]
SPECS = {
    'static': (El('div', Attr('class', 'foo'), El('div', Attr('id', 'x'), Text('hello')), El('p'), Text('bye'), Text('hana::size_c<12>')), {}),
    'text': (El('div', Text(a), Text('!'), El('p', Text(b), Text(a))), {'a': TXT, 'b': [X(2)]}),
    'number': (El('div', Text(n)), {'n': [N(0), N(42), N(-7), N(100)]}),
    'numbers': (El('div', Text(f), Text(','), Text(n), Text(','), Text(a), Text(','), Text(b)), {'f': [Bo(1), Bo(0)], 'n': [As('short', -300), As('short', 7)], 'a': [As('unsigned', 4294967295)], 'b': [As('u64', 0), As('u64', 300)]}),
    'concat': (El('div', Text(Cat('<', a, '|', b, '>')), Text(Cat(a))), {'a': TXT, 'b': [X(2), L('zz')]}),
    'attr': (El('div', Attr('title', a), Attr('id', Cat('i-', b)), El('p', Attr('title', Cat(b, a)))), {'a': TXT, 'b': [X(2), L('q')]}),
    'prop': (El('input', Prop('value', a), Prop('name', Cat('n', b, '.')), Prop('type', 'text')), {'a': TXT, 'b': [X(2), L('q')]}),
    'attr_match': (El('div', Attr('class', Cat('foo ', a, ' ', match(o, ('text', lambda p: Cat('bar ', p)), ('nothing', '')), ' end'))), {'a': TXT[:2], 'o': OPT}),
    'attr_if': (El('div', Attr('class', Cat('is ', match_if(a, ('one', 'uno'), ('two', lambda p: Cat('due ', p)), (None, lambda p: Cat('any ', p)))))), {'a': WORDS}),
    'html': (El('pre', Text('gone'), Html('<b>x</b>')), {}),
    'flags': (El('a', attr_if('disabled', f, ident), attr_if('on', f, negate), class_if('up', g, ident), class_if('down', g, negate), Text('t')), {'f': [Bo(0), Bo(1)], 'g': [Bo(0), Bo(1)]}),
    'flags2': (El('a', Attr('class', Cat('c ', a)), class_if('up', g, ident), class_if('big', n, big)), {'a': TXT[:2], 'g': [Bo(0), Bo(1)], 'n': [N(1), N(10)]}),
    'when': (El('a', ClassWhen('int', 'num', v), ClassWhen('text', 'word', v)), {'v': VAR}),
    'match': (El('div', Text('<'), match(o, ('text', lambda p: Text(p)), ('nothing', El('p', Text('none')))), Text('>')), {'o': OPT}),
    'match_el': (El('div', match(v, ('text', lambda p: El('b', Attr('id', p), Text(p))), ('int', lambda p: El('i', Text(p), El('u', Text(a)))), (None, El('s'))), Text('.')), {'v': VAR, 'a': TXT[:2]}),
    'match_if': (El('div', Text('<'), match_if(a, ('one', El('b', Text('1'))), ('two', lambda p: El('i', Text(p))), (None, lambda p: Text(p))), El('p')), {'a': WORDS}),
    'match_two': (El('div', match(o, ('text', El('b')), ('nothing', El('i'))), match(v, ('int', El('u', Text(n))), (None, El('s')))), {'o': OPT[:2], 'v': VAR[:2], 'n': [N(1), N(2)]}),
    'match_in': (El('div', match(o, ('text', El('b', match(v, ('int', El('u')), (None, El('s'))))), ('nothing', El('i', match(v, ('int', El('u')), (None, El('s'))))))), {'o': OPT[:2], 'v': VAR[:2]}),
    # a branch of another kind than one element or one text
    'nested': (El('div', Text('<'), match(o, ('text', match(v, ('int', El('u')), (None, El('s')))), ('nothing', El('i'))), Text('>')), {'o': OPT[:2], 'v': VAR[:2]}),
    'several': (El('div', Text('<'), match(o, ('text', lambda p: Text(Cat('[', p, ']'))), ('nothing', El('i'))), Text('>')), {'o': OPT}),
    'none': (El('div', Text('<'), match(o, ('text', lambda p: Text(p)), ('nothing', None)), Text('>')), {'o': OPT}),
    'none_first': (El('div', Text('<'), match(o, ('nothing', None), ('text', lambda p: Text(p))), Text('>')), {'o': OPT}),
    'each_branch': (El('div', Text('<'), match(f_text := P('a'), ('text', El('p', Each(l, lambda x: El('li', Text(P('t', var=x)))))), (None, El('i'))), Text('>')), {'a': TXT[:2], 'l': [Rows(), Rows({'t': X(3)})]}),
    'each': (El('ul', Each(l, lambda x: El('li', Text(P('t', var=x)), Text(a)))), {'a': [X(0), X(1)], 'l': [Rows(), Rows({'t': X(2)}), Rows({'t': X(3)}, {'t': X(4)}, {'t': X(2)})]}),
    'each_beside': (El('div', Text('<'), Each(l, lambda x: El('b', Text(P('t', var=x)))), El('i'), Each(l, lambda x: Text(P('t', var=x))), Text(a)), {'a': [X(0), X(1)], 'l': [Rows(), Rows({'t': X(2)}), Rows({'t': X(3)}, {'t': X(4)})]}),
    'each_match': (El('ul', Text('<'), Each(l, lambda x: match(o, ('text', lambda p: match_if(p, ('one', El('b', Text(P('t', var=x)))), (None, El('u')))), ('nothing', lambda q: match(v, ('int', El('i')), (None, None))))), Text('>')), {'o': [Opt(), Opt(L('one')), Opt(L('two'))], 'v': VAR[:2], 'l': [Rows({'t': X(3)}, {'t': X(4)})]}),
    'each_two': (El('div', El('ul', Each(l, lambda x: El('li', Text(P('t', var=x))))), El('ol', Each(l, lambda x: El('li', Attr('id', P('t', var=x)), match(o, ('text', lambda p: Text(p)), ('nothing', El('i'))))))), {'o': OPT[:2], 'l': [Rows({'t': X(3)}), Rows({'t': X(2)}, {'t': X(4)})]}),
    'each_deep': (El('ul', Each(l, lambda x: El('li', Attr('class', Cat('r ', P('t', var=x))), class_if('up', g, ident), El('p', El('b', Text(P('t', var=x))), Text('.'))))), {'g': [Bo(0), Bo(1)], 'l': [Rows({'t': X(3)}), Rows({'t': L('q')}, {'t': X(4)})]}),
    'nested_three': (El('div', match(o, ('text', match(v, ('int', match(f, ('bool', El('u')))), (None, El('s')))), ('nothing', lambda p: match(v, ('text', lambda t: Text(Cat('a', t))), (None, None)))), Text('>')), {'o': OPT[:2], 'v': VAR[:2], 'f': [Bo(0)]}),
    'after': (El('div', El('p', match(o, ('text', El('b')), ('nothing', El('i'))), match(o, ('text', lambda p: Text(p)), ('nothing', Text('no'))), Text('!')), match(o, ('text', El('b')), (None, El('i')))), {'o': OPT[:2]}),
    'each_if': (El('ul', Each(l, lambda x: match_if(P('t', var=x), ('one', El('b', Text('1'))), (None, lambda p: El('i', Text(p)))))), {'l': [Rows({'t': L('one')}, {'t': X(1)}), Rows({'t': X(1)}), Rows({'t': X(2)}, {'t': L('one')}, {'t': L('one')})]}),
}
del f_text

EVENTS = {
    'click': (El('div', Event('click', 1, None), Text('t')), {}),
    'params': (El('div', Event('click', 1, None, a, b), El('p', Event('keyup', 2, None, b)), Text(a)), {'a': TXT[:2], 'b': [X(2), X(3)]}),
    'sends': (El('div', Event('click', 1, 5, a), Event('keydown', 2, None, a), Text(a)), {'a': TXT[:2]}),
    'sends_more': (El('div', Event('click', 1, (5, 6, 5, 7), b), El('p', Event('click', 2, (6, 6)), Event('keyup', 3, (5,), a)), Text(a)), {'a': TXT[:2], 'b': [X(2), X(3)]}),
    'data': (El('form', Event('submit', 1, None, 'event', a)), {'a': TXT[:2]}),
    'upload': (El('div', Upload(1, None, 'event', a), Text(a)), {'a': TXT[:2]}),
    'branch': (El('div', match(o, ('text', lambda p: El('b', Event('click', 1, None, a), Text(p))), ('nothing', El('i', Event('click', 2, None, a), Event('keyup', 3, None))))), {'o': OPT, 'a': [X(2)]}),
    'each_on': (El('ul', Each(l, lambda x: El('li', Event('click', 1, None, P('t', var=x), a), Text(P('t', var=x))))), {'a': [X(0)], 'l': [Rows(), Rows({'t': X(2)}), Rows({'t': X(3)}, {'t': X(4)})]}),
    'each_sends': (El('div', El('ul', Each(l, lambda x: El('li', Event('click', 1, 5, P('t', var=x))))), Text(a)), {'a': [X(0)], 'l': [Rows({'t': X(3)}, {'t': X(4)}), Rows({'t': X(2)})]}),
}
ALL = {**SPECS, **EVENTS}

HEAD = '#include "webui.hpp"\n'


def sequences(keys):
    """every pair of states, and a return to the first"""
    all_ = [dict(zip(keys, c)) for c in itertools.product(*keys.values())]
    if len(all_) == 1:
        return [[all_[0]] * 2]
    return [[x, y, x] for x in all_ for y in all_ if x is not y]


def program(nm):
    spec, keys = ALL[nm]
    s = spec.cpp()
    out = [HEAD, f'inline auto spec_() {{ return {s}; }} auto const spec = spec_();']
    for i, seq in enumerate(sequences(keys)):
        store = 'hana::make_map(' + ', '.join(f'hana::make_pair({q(k)}, {x.cpp})' for k, x in seq[0].items()) + ')'
        ev = nm in EVENTS
        if ev:
            store = f'book({store})'
        fire = ' fire(6);' if ev else ''
        body = ' '.join(['{ ' + ' '.join(f's[{q(k)}] = {x.cpp};' for k, x in st.items() if x is not prev[k]) + ' notify(r); evt_r_phase(%d);%s }' % (j + 2, fire) for j, (prev, st) in enumerate(zip(seq, seq[1:]))])
        out.append(f'WIT void wit_{nm}_{i}() {{ {'reset(); ' if ev else ''}{'auto' if not ev else 'book'} s{{{store[5:-1] if ev else store}}}; {{ auto r = {'hold' if ev else 'make'}(spec, s); evt_r_phase(1);{fire} {body} }} evt_r_phase(0); }}')
        if i == 0 and not ev:
            out.append(f'WIT void wit_end_{nm}() {{ auto s = {store}; {{ auto r = make(spec, s); evt_r_phase(1); r.destroy(); evt_r_phase(-1); {body} evt_r_phase(-2); }} evt_r_phase(0); }}')
    return '\n'.join(out) + '\n'


def one_spec(chk, nm):
    spec, keys = ALL[nm]
    try:
        mod = core.compile_ir('webui-' + nm, shims=('js',), nsa_args=('-heap',), text=program(nm))
    except core.CompileError as e:
        if not e.in_library():
            raise
        chk.ob(False, f'{nm}: a spec that says nothing wrong is accepted', '; '.join(e.errors()[:2]), key=nm)
        return
    for i, seq in enumerate(sequences(keys)):
        fn = f'wit_{nm}_{i}'
        ts = chk.explore(mod, fn, unroll=80).traces
        chk.ob(bool(ts) and all(t.kind == 'ret' for t in ts), f'{nm}: rendering ends', fn + ': ' + ' / '.join(t.show()[-200:] for t in ts[:2]))
        for t in ts:
            judge(chk, fn, nm, seq, t)
    if nm in SPECS:
        fn = f'wit_end_{nm}'
        ts = chk.explore(mod, fn, unroll=80).traces
        chk.ob(bool(ts) and all(t.kind == 'ret' for t in ts), f'{nm}: rendering ends', fn + ': ' + ' / '.join(t.show()[-200:] for t in ts[:2]))
        for t in ts:
            ps = [(i, e) for i, e in enumerate(t.events) if e.name == 'evt_r_phase' and e.args[0][1] in (2**32 - 1, 2**32 - 2)]
            if chk.ob(len(ps) == 2, f'{nm}: every step is reached', fn):
                done = [e for e in t.events[ps[0][0]:ps[1][0]] if e.name != 'evt_r_phase' and (e.name.startswith('evt_r_js_call') or e.name == 'evt_r_js_set')]
                chk.ob(not done, f'{nm}: a page that is destroyed is left alone', f'{fn}: {len(done)} operations', loc=done[0].loc if done else None, key=f'{nm} destroyed')


def listeners(nodes):
    """in the order of the document"""
    for n in nodes:
        if n[0] == 'el':
            yield from n[2]['on']
            yield from listeners(n[2]['kids'])


def judge(chk, fn, nm, seq, t):
    spec, _ = ALL[nm]
    doc, at, st, heard = Doc(), 0, seq[0], None
    try:
        for e in t.events:
            if e.name == 'evt_r_phase':
                k = e.args[0][1]
                if k == 0:
                    chk.ob(not any(x.on for x in doc.nodes), f'{nm}: who listens stops to when the rendering goes', fn, loc=e.loc, key=f'{nm} listeners')
                    continue
                at += 1
                st = {**seq[k - 1], **({'a': st['a']} if k > 1 and seq[k - 1].get('a') is seq[k - 2].get('a') and 'a' in st else {})}
                want, got = norm(spec.nodes(st)), norm([c.tree() for c in doc.target.kids])
                what = 'as the spec says' if k == 1 else 'as the spec says of the state at the time'
                chk.ob(got == want, f'{nm}: what is in the document is {what}', f'{fn} step {k}: {show(got)} instead of {show(want)}', loc=e.loc, key=f'{nm} step {min(k, 2)}')
            elif e.name == 'evt_r_fire':
                here = list(listeners([c.tree() for c in doc.target.kids]))
                want = list(listeners(spec.nodes(st)))
                pos = [i for i, x in enumerate(here) if x[1] == ('handler', e.args[1])]
                heard, acts = [], []
                due = want[pos[0]][1] if len(pos) == 1 and len(here) == len(want) else None
                chk.ob(len(pos) < 2, f'{nm}: each listener is of its own', fn, loc=e.loc, key=f'{nm} own')
            elif e.name == 'evt_r_handled':
                who, n = e.args[0][1], e.args[1][1]
                heard.append((who, tuple('event' if doc.of.get(x) == 'event' else text(x) for x in e.args[2:2 + n])))
            elif e.name == 'evt_r_change':
                acts.append(e.args[0][1])
                st = {**st, 'a': X(e.args[0][1])}
            elif e.name == 'evt_r_fired':
                if due is not None:
                    chk.ob(heard == [due[:2]], f'{nm}: an event is handed once to its handler, with the present values', f'{fn}: {heard} instead of {due[:2]}', loc=e.loc, key=f'{nm} handler')
                    chk.ob(acts == list(due[2] or ()), f'{nm}: what a handler sends is done in the store', f'{fn}: {acts}', loc=e.loc, key=f'{nm} sends')
            elif e.name == 'evt_r_pick':
                pass
            else:
                doc.event(e)
    except Wrong as x:
        chk.ob(False, f'{nm}: the operations on the document are in order', f'{fn} after step {at}: {x}', loc=e.loc, key=f'{nm} order')
        return
    chk.ob(at == len(seq), f'{nm}: every step is reached', fn)


def c42(chk):
    """Every spec is rendered in every state it is given and notified of every change between two of them: the operations on the document, replayed, leave what the spec says of the state at the time."""
    chk.parallel(one_spec, list(SPECS))


def c43(chk):
    """Every spec with listeners is rendered, every event fired, in every state: who is called with what, what is done in the store, and who still listens in the end."""
    chk.parallel(one_spec, list(EVENTS))


CHECKS = {'C42': (c42, 100), 'C43': (c43, 40)}
