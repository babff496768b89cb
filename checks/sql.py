"""SQL: statements and the values bound to them."""
import re
from sa import core, terms as T
from sa.terms import C

# entity -> [(member, kind, entity)]; kind: value, child (row of its own), rows (n rows)
V, CH, ROWS = 'value', 'child', 'rows'
SCHEMA = {
    'flat': [('a', V), ('b', V)],
    'one': [('z', V)],
    'mid': [('v', V), ('f', CH, 'flat'), ('w', V)],
    'top': [('m1', CH, 'mid'), ('t', V), ('m2', CH, 'mid'), ('g', CH, 'flat')],
    'deep': [('top', CH, 'top')],
    'own': [('x', V), ('rows', ROWS, 'flat', 3), ('y', V)],
    'all': [('ones', ROWS, 'one', 1), ('f', CH, 'flat'), ('x', V), ('mids', ROWS, 'mid', 2)],
    'nest': [('owns', ROWS, 'own', 2), ('n', V)],
}


def table(e):
    return 'wit::e_' + e


def fill(e, args):
    """an entity whose values are the next arguments"""
    out = {}
    for m in SCHEMA[e]:
        if m[1] == V:
            out[m[0]] = next(args)
        elif m[1] == CH:
            out[m[0]] = fill(m[2], args)
        else:
            out[m[0]] = [fill(m[2], args) for _ in range(m[3])]
    return out


def insert(e, x, keys, log):
    """the rows an entity becomes: rows it refers to before it, rows that refer to it after it"""
    cols = list(keys)
    for m in SCHEMA[e]:
        if m[1] == CH:
            cols.append((m[0] + '_id', insert(m[2], x[m[0]], [], log)))
    cols += [(m[0], x[m[0]]) for m in SCHEMA[e] if m[1] == V]
    log.append((table(e), cols))
    me = ('res', 'evt_row', (), len(log) - 1)
    for m in SCHEMA[e]:
        if m[1] == ROWS:
            for r in x[m[0]]:
                insert(m[2], r, [(table(e) + '_id', me)], log)
    return me


def read(t):
    """events with texts folded into ('text', s) and values into ('val', v)"""
    out, cur, fresh = [], b'', True
    for e in t.events:
        if e.name == 'evt_r_txt':
            if not (T.is_c(e.args[0]) and T.is_c(e.args[1])):
                return None
            cur += e.args[0][1].to_bytes(8, 'little')[:e.args[1][1]]
        elif e.name == 'evt_r_end':
            out.append(('text', cur.decode('latin1')))
            cur = b''
        elif e.name in ('evt_r_val', 'evt_r_id'):
            out.append((e.name[6:], e.args[0]))
        elif e.name in ('evt_r_begin', 'evt_row', 'evt_done'):
            out.append((e.name, None))
    return out


def say(ev):
    if ev is None:
        return 'texts that are not constant'
    return ' '.join(repr(v) if k == 'text' else T.show(v) if v is not None else k for k, v in ev)[:900]


def columns(cs):
    return [y for n, v in cs for y in (('text', n), ('val', v))]


def rows(log):
    out = []
    for name, cs in log:
        out += [('evt_r_begin', None), ('text', name)] + columns(cs) + [('evt_row', None)]
    return out


# ------------------------------------------------------------------------------------------------ statements

class Syntax(Exception):
    pass


class Reader:
    """the statements of this library in ANSI SQL; what it does not accept is not a statement"""
    def __init__(self, text):
        self.toks = re.findall(r'"[^"]*"|\w+|\S', text)
        self.i = 0
        self.marks = 0

    def next(self):
        self.i += 1
        return self.toks[self.i - 1] if self.i <= len(self.toks) else ''

    def peek(self, w):
        return self.i < len(self.toks) and self.toks[self.i].upper() == w

    def word(self, *ws):
        for w in ws:
            x = self.next()
            if x.upper() != w:
                raise Syntax(f'{x or "the end"} instead of {w}')

    def name(self):
        x = self.next()
        if not re.fullmatch(r'"[^"]+"', x):
            raise Syntax(f'{x or "the end"} instead of a quoted name')
        return x[1:-1]

    def column(self):
        n = [self.name()]
        while self.peek('.'):
            self.word('.')
            n.append(self.name())
        return tuple(n)

    def many(self, sep, f):
        out = [f()]
        while self.peek(sep):
            self.word(sep)
            out.append(f())
        return out

    def bind(self):
        n = self.column()
        self.word('=', '?')
        return n

    def mark(self):
        self.word('?')
        return '?'

    def end(self):
        self.word(';')
        if self.i != len(self.toks):
            raise Syntax(f'{self.toks[self.i]} after the end')

    def insert(self):
        self.word('INSERT', 'INTO')
        t = self.name()
        self.word('(')
        cs = self.many(',', self.name)
        self.word(')', 'VALUES', '(')
        ms = self.many(',', self.mark)
        self.word(')')
        self.end()
        if len(cs) != len(ms):
            raise Syntax(f'{len(cs)} columns and {len(ms)} values')
        return t, cs

    def update(self):
        self.word('UPDATE')
        t = self.name()
        self.word('SET')
        cs = self.many(',', self.bind)
        self.word('WHERE')
        ks = self.many('AND', self.bind)
        if self.peek('LIMIT'):
            self.word('LIMIT', '1')
        self.end()
        return t, cs, ks

    def select(self):
        self.word('SELECT')
        cs = self.many(',', self.column)
        self.word('FROM')
        t = self.name()
        js = []
        while self.peek('JOIN') or self.peek('INNER'):
            if self.peek('INNER'):
                self.word('INNER')
            self.word('JOIN')
            x = self.name()
            self.word('AS')
            a = self.name()
            self.word('ON')
            left = self.column()
            self.word('=')
            js.append((x, a, left, self.column()))
        self.word('WHERE')
        ks = self.many('AND', self.bind)
        self.end()
        return t, cs, js, ks


def parse(text, kind):
    try:
        return getattr(Reader(text), kind)(), ''
    except Syntax as e:
        return None, f'{e}: {text}'


def tree(e, alias, parent=None, member=None):
    """(alias, entity, parent alias, member) of an entity and everything nested in it"""
    yield alias, e, parent, member
    for m in SCHEMA[e]:
        if m[1] == CH:
            yield from tree(m[2], alias + '.' + m[0], alias, m[0])


def c31(chk):
    """Every statement generated for entities of every shape (flat, nested, rows of rows, any number of rows), parsed as SQL and compared with the
    schema; every value, key and row id handed over with it, by the column it is bound to, for arguments that are constant, movable and moved"""
    mod = core.compile_ir('sql')

    def go(fn, **kw):
        ts = chk.explore(mod, fn, **{"unroll": 8, **kw}).traces
        for t in ts:
            chk.ob(t.kind in ('ret', 'cut'), f'{fn}: completes', t.kind, trace=t)
        return [t for t in ts if t.kind in ('ret', 'cut')]

    def same(fn, t, want, what):
        got = read(t)
        if t.kind == 'cut' and got is not None:
            want = want[:len(got)]
        chk.ob(got == want, f'{fn}: {what}', f'{say(got)} instead of {say(want)}', trace=t)

    # rows
    arg = lambda i: ('arg', i)  # noqa: E731
    K1, K2 = arg(17), arg(18)
    for e in ('flat', 'mid', 'top', 'own', 'all', 'nest'):
        for how in ('insl', 'insr', 'insm', 'insk', 'insq', 'insn'):
            fn = f'wit_{how}_{e}'
            owner = [('owner_id', K1), ('other_id', K2)] if how in ('insk', 'insq', 'insn') else []
            log = []
            me = insert(e, fill(e, iter([arg(i) for i in range(17)])), owner, log)
            want = rows(log) + [('id', me)]
            if how == 'insm':
                # the entity is left as it was: inserting it again says the same
                log2 = list(log)
                insert(e, fill(e, iter([arg(i) for i in range(17)])), owner, log2)
                want += rows(log2[len(log):]) + [('evt_done', None)]
            if how in ('insq', 'insn'):
                want += [('evt_done', None)] + columns(owner)
            for t in go(fn):
                same(fn, t, want, 'an entity becomes its rows, with every value in its column and every row bound to the row it belongs to')
            chk.sample(f'{fn}: {len(log)} rows')
    seen = set()
    for t in go('wit_insl_many', unroll=4, max_cut=True):
        log = [('wit::e_many', [('x', ('load', arg(0), 0, 8, 0, ()))])]
        me = ('res', 'evt_row', (), 0)
        log += [('wit::e_one', [('wit::e_many_id', me), ('z', ('load', arg(1), 8 * i, 8, 0, ()))]) for i in range(8)]
        got = read(t)
        n = sum(1 for k, _ in got or () if k == 'evt_row')
        seen.add(n - 1)
        same('wit_insl_many', t, rows(log[:n]) + ([('id', me)] if t.kind == 'ret' else rows(log[n:n + 1])), 'every row of a container is inserted, in order')
    chk.ob({0, 1, 2} <= seen, 'wit_insl_many: containers with none, one and several rows', str(sorted(seen)))
    log = [(table('flat'), [('owner_id', K1), ('a', arg(2 * i)), ('b', arg(2 * i + 1))]) for i in range(3)]
    for t in go('wit_insc_rows'):
        same('wit_insc_rows', t, rows(log) + [('evt_done', None)], 'every row of a container is bound to the owner')

    # update
    for e in ('flat', 'one'):
        x = [(m[0], arg(i)) for i, m in enumerate(SCHEMA[e])]
        key = (table(e) + '_id', K1)
        for t in go(f'wit_updl_{e}'):
            same(f'wit_updl_{e}', t, [('evt_r_begin', None), ('text', table(e))] + columns(x) + [('evt_done', None)] + columns([('owner_id', K2), key]), 'an update hands over every value and the keys')
        for t in go(f'wit_updr_{e}'):
            same(f'wit_updr_{e}', t, [('evt_r_begin', None), ('text', table(e))] + columns(x) + [('evt_done', None)] + columns([key]) * 1 + [('evt_done', None)] + columns([key]), 'an update hands over every value and the keys and leaves the keys')

        for t in go(f'wit_updn_{e}'):
            same(f'wit_updn_{e}', t, ([('evt_r_begin', None), ('text', table(e))] + columns(x) + [('evt_done', None)] + columns([key])) * 2 + columns([key]), 'an update leaves a named entity and named keys as they are')

    # select
    sel = [(f'wit_sel_{e}', e, [((table(e), table(e) + '_id'), arg(0))]) for e in ('flat', 'one', 'mid', 'top', 'deep')]
    sel.append(('wit_sel2_top', 'top', [((table('top') + '.m2.f', table('flat') + '_id'), arg(0)), ((table('top'), table('top') + '_id'), arg(1))]))
    sel.append(('wit_sel2n_top', 'top', sel[-1][2]))
    sel.append(('wit_sel2_mid', 'mid', [((table('mid'), table('mid') + '_id'), arg(0)), ((table('mid') + '.f', table('flat') + '_id'), arg(1))]))
    for fn, e, keys in sel:
        for t in go(fn):
            got = read(t)
            shape = [k for k, _ in got or ()]
            n = len(keys)
            if not chk.ob(shape[:4 + n] == ['text', 'text'] + ['val'] * n + ['evt_row', 'id'], f'{fn}: one statement is handed over with its keys', say(got), trace=t):
                continue
            chk.ob(got[0][1] == table(e) and got[3 + n][1] == ('res', 'evt_row', (), 0), f'{fn}: the answer is returned', say(got), trace=t)
            st, err = parse(got[1][1], 'select')
            if not chk.ob(st is not None, f'{fn}: the statement is SQL', err, trace=t):
                continue
            tab, cs, js, ks = st
            nodes = list(tree(e, table(e)))
            chk.ob(tab == table(e), f'{fn}: it reads the table of the entity', tab, trace=t)
            chk.ob(sorted(js) == sorted((table(x), a, (p, m + '_id'), (a, table(x) + '_id')) for a, x, p, m in nodes if p), f'{fn}: every nested entity is joined once, by the key its owner has', str(js), trace=t)
            al = [a for _, a, _, _ in js]
            chk.ob(all(left[0] == table(e) or left[0] in al[:i] for i, (_, _, left, _) in enumerate(js)), f'{fn}: an entity is joined after its owner', str(al), trace=t)
            want = [(a, m[0]) for a, x, _, _ in nodes for m in SCHEMA[x] if m[1] == V]
            chk.ob(sorted(cs) == sorted(want), f'{fn}: every value of the entity and what is nested in it is read once', f'{cs} instead of {want}', trace=t)
            order = [[c for a, c in cs if a == n[0]] for n in nodes]
            chk.ob(order == [[m[0] for m in SCHEMA[x] if m[1] == V] for _, x, _, _ in nodes] and len([1 for i in range(len(cs)) if i == 0 or cs[i][0] != cs[i - 1][0]]) == len({a for a, _ in cs}),
                   f'{fn}: the values of an entity are read together in the order of its members', str(cs), trace=t)
            chk.ob(list(zip(ks, [v for _, v in got[2:2 + n]])) == keys, f'{fn}: every key is bound to its criterion and all must hold', f'{ks}: {say(got)}', trace=t)
            if fn in ('wit_sel2_top', 'wit_sel2n_top'):
                chk.ob([v for _, v in got[5 + n:]] == [v for _, v in keys], f'{fn}: named keys are left', say(got), trace=t)
            chk.sample(f'{fn}: {got[1][1]}')

    # statements by themselves
    cols = ['c1', 'a2', 'b3', 'n4', 'd5']
    for fn, n in [(f'wit_{st}_insert_{n}', n) for n in (1, 2, 3, 5) for st in ('st', 'stn')]:
        for t in go(fn):
            got = read(t)
            vals = [('val', arg(i)) for i in range(n)]
            chk.ob([g if g[0] != 'text' else ('text', 0) for g in got or ()] == ([('text', 0)] + vals + [('evt_done', None)]) * 2 + vals, f'{fn}: the values are handed over in order', say(got), trace=t)
            for k, s in got or ():
                if k == 'text':
                    st, err = parse(s, 'insert')
                    if chk.ob(st is not None, f'{fn}: the statement is SQL', err, trace=t):
                        chk.ob(st == ('tab', cols[:n]), f'{fn}: the columns are named in the order of the values', s, trace=t)
    for fn, n, m in [(f'wit_{st}_update_{n}{m}', n, m) for n, m in ((1, 1), (3, 1), (2, 2), (5, 2)) for st in ('st', 'stn')]:
        names = ['k1', 'i2'][:m]
        for t in go(fn):
            got = read(t)
            vals = [('val', arg(i)) for i in range(n)] + [('val', arg(5 + i)) for i in range(m)]
            left = [y for i, c in enumerate(cols[:n] + names) for y in (('text', c), vals[i])]
            chk.ob(bool(got) and [g if g[0] != 'text' else ('text', 0) for g in got[:2 * (len(vals) + 2)]] == ([('text', 0)] + vals + [('evt_done', None)]) * 2
                   and got[2 * (len(vals) + 2):] == left, f'{fn}: the values, then the keys are handed over in order', say(got), trace=t)
            for i in (0, len(vals) + 2):
                if i >= len(got or ()) or got[i][0] != 'text':
                    continue
                st, err = parse(got[i][1], 'update')
                if chk.ob(st is not None, f'{fn}: the statement is SQL', err, trace=t):
                    chk.ob(st == ('tab', [(c,) for c in cols[:n]], [(c,) for c in names]), f'{fn}: the columns and the criteria are named in the order of the values, and all criteria must hold', got[i][1], trace=t)

    # what must not compile
    pre = '#include "wit.hpp"\n#include <nbdl/entity.hpp>\n#include <nbdl/key.hpp>\n#include <nbdl/sql_db/insert.hpp>\n#include <nbdl/sql_db/select.hpp>\n#include <nbdl/sql_db/update.hpp>\n#include <array>\n' \
          'namespace wit { struct flat { int a; int b; }; struct mid { flat f; int v; }; struct own { int v; std::array<flat, 2> r; }; struct plain { int a; };\n' \
          'struct ins { template <typename N, typename C> int operator()(N, C&&) const { return 1; } };\n' \
          'struct upd { template <typename N, typename C, typename K> void operator()(N, C&&, K&&) const { } };\n' \
          'struct sel { template <typename N, typename C, typename J, typename K> int operator()(N, C, J, K&&) const { return 1; } }; }\n' \
          'namespace nbdl { NBDL_ENTITY(wit::flat, a, b); NBDL_ENTITY(wit::mid, f, v); NBDL_ENTITY(wit::own, v, r); }\n' \
          'namespace hana = boost::hana; using namespace hana::literals; using namespace wit; namespace db = nbdl::sql_db;\n' \
          'template <typename T> auto key() { return hana::make_pair(db::table_key_name<T>{}, db::primary_key<T>(1u)); }\n'
    own = 'hana::make_pair("owner_id"_s, 3)'
    cases = [
        ('an update with its primary key', 'db::update(upd{}, flat{}, hana::make_tuple(key<flat>()))', True),
        ('an update with its primary key and another', f'db::update(upd{{}}, flat{{}}, hana::make_tuple({own}, key<flat>()))', True),
        ('an update without keys', 'db::update(upd{}, flat{}, hana::make_tuple())', False),
        ('an update with another key only', f'db::update(upd{{}}, flat{{}}, hana::make_tuple({own}))', False),
        ('an update with the primary key of another entity', 'db::update(upd{}, flat{}, hana::make_tuple(key<mid>()))', False),
        ('an update with its key by another name', 'db::update(upd{}, flat{}, hana::make_tuple(hana::make_pair("owner_id"_s, db::primary_key<flat>(1u))))', False),
        ('an update with something else by the name of its key', 'db::update(upd{}, flat{}, hana::make_tuple(hana::make_pair(db::table_key_name<flat>{}, 1u)))', False),
        ('an update with a key of another entity by the name of its key', 'db::update(upd{}, flat{}, hana::make_tuple(hana::make_pair(db::table_key_name<flat>{}, db::primary_key<mid>(1u))))', False),
        ('an update of an entity with a nested one', 'db::update(upd{}, mid{}, hana::make_tuple(key<mid>()))', False),
        ('an update of an entity with rows', 'db::update(upd{}, own{}, hana::make_tuple(key<own>()))', False),
        ('an insert of an entity', 'db::insert(ins{}, mid{})', True),
        ('an insert of an entity with rows', 'db::insert(ins{}, own{})', True),
        ('an insert of something that is no entity', 'db::insert(ins{}, plain{})', False),
        ('a select of an entity with a nested one', 'db::select<mid>(sel{}, 1)', True),
        ('a select of an entity with rows', 'db::select<own>(sel{}, 1)', False),
    ]
    res = core.pmap(lambda c: core.syntax_check(f'{pre}void go() {{ {c[1]}; }}\n', name='sql'), cases)
    for (what, _, good), (ok, err) in zip(cases, res):
        chk.type_ob(ok == good, f'{what} {"compiles" if good else "is refused at compile time"}', ' '.join(l for l in err.splitlines() if 'error' in l)[:300] if good else 'it compiles')


CHECKS = {'C31': (c31, 180)}
