"""Declared entities and metastructs of every size; lists, maps and trees of definitions."""
import re
from sa import core

HEAD = '''#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/macros/NBDL_ENTITY.hpp>
#include <mpdef/MPDEF_METASTRUCT.hpp>
#include <mpdef/list.hpp>
namespace hana = boost::hana; using namespace hana::literals;
template <int i> using c = hana::integral_constant<int, i>;
template <auto> constexpr int id_of = -1;
#define NBDL_MEMBER_ID(P, I) template <> constexpr int id_of<P> = I;
template <typename T, typename U> constexpr bool same = std::is_same_v<std::remove_cvref_t<T>, U>;
'''


def chunks(chk, head, items, name):
    """items: (label, declarations, [(what, expression)]); a fact that is false and a declaration that does not compile are both charged to their item"""
    def run(part):
        text = [head]
        for label, decl, fs in part:
            text.append(f'#line 1 "{label}"\n{decl}')
            for i, (what, expr) in enumerate(fs):
                text.append(f'static_assert(({expr}), "[{label}#{i}]");')
        return core.syntax_check('\n'.join(text) + '\n', (), ('BOOST_HANA_CONFIG_ENABLE_STRING_UDL',), name)

    n = 8
    parts = [p for p in (items[i::n] for i in range(n)) if p]
    base_ok, base_err = core.syntax_check(head, (), ('BOOST_HANA_CONFIG_ENABLE_STRING_UDL',), name)
    if not base_ok:
        raise core.AnalysisError(f'{name}: the prelude does not compile: {base_err[:1500]}')
    for part, (ok, err) in zip(parts, core.pmap(run, parts)):
        if not ok:      # one at a time, to charge errors to the right one
            res = core.pmap(lambda it: run([it]), part)
        else:
            res = [(True, '')] * len(part)
        for (label, decl, fs), (ok1, err1) in zip(part, res):
            bad = {int(m) for m in re.findall(r'\[' + re.escape(label) + r'#(\d+)\]', err1)}
            broken = [l for l in err1.splitlines() if 'error:' in l and f'[{label}#' not in l]
            if not ok1 and not bad and not broken:
                broken = ['the compiler ends without an answer: ' + ' '.join(err1.split())[:200]]
            for i, (what, expr) in enumerate(fs):
                chk.type_ob(i not in bad and not (broken and not bad), f'{label}: {what}',
                            f'static fact is false: {" ".join(expr.split())[:300]}' if i in bad else 'does not compile: ' + (broken[0] if broken else '')[:300])
    label, decl, fs = items[len(items) // 2]
    chk.sample(f'{label}: {" ".join(decl.split())[:200]} ... {fs[0][0]}')


def c40(chk):
    """Every size the macros take is declared in a generated program: the members or keys of each, their order, names and ids, and what the keys of a metastruct read, are facts of the type-checked program."""
    items = []
    for n in range(1, 63):
        e = f'e{n}'
        ms = [f'm{i}' for i in range(1, n + 1)]
        mem = [f'nbdl::member<{e}, int, &{e}::{m}>' for m in ms]
        args = ', '.join(ms)
        ids = n <= 61
        decl = f'struct {e} {{ int {args}; }};\nnamespace nbdl {{ NBDL_ENTITY({e}, {args}) }}\n' + (f'NBDL_MEMBER_IDS({e}, {args})' if ids else '')
        fs = [('the members are those listed, in order', f'same<nbdl::entity_members_t<{e}>, mpdef::list<{", ".join(mem)}>>'),
              ('each member has its own name', ' && '.join(f'same<nbdl::member_name<{x}>, decltype("{m}"_s)>' for x, m in zip(mem, ms))),
              ('the entity has its name', f'same<nbdl::entity_name<{e}>, decltype("{e}"_s)>'),
              ('it is an entity', f'nbdl::Entity<{e}>')]
        if ids:
            fs.append(('the ids count the members', ' && '.join(f'id_of<&{e}::{m}> == {i}' for i, m in enumerate(ms))))
        items.append((f'entity{n}', decl, fs))
    for n in range(1, 64):
        s = f's{n}'
        ks = [f'k{i}' for i in range(1, n + 1)]
        args = ', '.join(ks)
        made = f'make_{s}({", ".join(f"c<{i}>{{}}" for i in range(n))})'
        back = f'make_{s}_with_map({", ".join(f"mpdef::make_pair({s}::{ks[i]}, c<{i}>{{}})" for i in reversed(range(n)))})'
        items.append((f'metastruct{n}', f'MPDEF_METASTRUCT({s}, {args})', [
            ('it has as many keys as listed', f'{s}::length == {n}'),
            ('the specification lists the keys in order', f'same<decltype({s}::spec), mpdef::list<{", ".join(f"std::remove_cv_t<decltype({s}::{k})>" for k in ks)}>>'),
            ('each key reads the value at its place', ' && '.join(f'same<decltype({s}::{k}({made})), c<{i}>>' for i, k in enumerate(ks))),
            ('made from a map each key reads its value', ' && '.join(f'same<decltype({s}::{k}({back})), c<{i}>>' for i, k in enumerate(ks))),
            ('with the same values it is the same', f'decltype(hana::equal({made}, {back}))::value'),
            ('with another value it is not', f'!decltype(hana::equal({made}, make_{s}({", ".join(f"c<{i + (i == n - 1)}>{{}}" for i in range(n))})))::value')]))
    items.append(('empty', 'struct none { }; struct not_one { int a; };\nnamespace nbdl { NBDL_EMPTY(none) }', [
        ('an empty entity has no members', 'same<nbdl::entity_members_t<none>, mpdef::list<>>'), ('it is an entity', 'nbdl::Entity<none>'),
        ('what is not declared is not an entity', '!nbdl::Entity<not_one> && !nbdl::Entity<int>'), ('references to one are', 'nbdl::Entity<none const&> && nbdl::Entity<none&>')]))
    items.append(('attributes', '''struct rec { std::string a, b; int n; };
namespace nbdl { NBDL_ENTITY(rec, a, b, n)
NBDL_MEMBER_DEFAULT(&rec::n, 56) NBDL_MEMBER_MAXLENGTH(&rec::a, 500) NBDL_MEMBER_MINLENGTH(&rec::a, 4) NBDL_MEMBER_MATCH(&rec::b, "x+") NBDL_MEMBER_ALLOWBLANK(&rec::b) }
using ma = NBDL_MEMBER(&rec::a); using mb = NBDL_MEMBER(&rec::b); using mn = NBDL_MEMBER(&rec::n);
constexpr bool eq(char const* x, char const* y) { while (*x && *x == *y) ++x, ++y; return *x == *y; }''', [
        ('the default is the one given', 'nbdl::member_default<mn>::value == 56'),
        ('the greatest length is the one given, of that member alone', 'nbdl::member_string_max_length<ma>::value == 500 && nbdl::member_string_max_length<mb>::value == 50'),
        ('the least length is the one given, of that member alone', 'nbdl::member_string_min_length<ma>::value == 4 && nbdl::member_string_min_length<mb>::value == 0'),
        ('the pattern is the one given, of that member alone', 'eq(nbdl::member_match<mb>::value, "x+") && nbdl::member_match<ma>::value == nullptr'),
        ('blanks are allowed for that member alone', 'nbdl::member_allow_blank<mb>::value && !nbdl::member_allow_blank<ma>::value && !nbdl::member_raw_buffer<ma>::value')]))
    chunks(chk, HEAD, items, 'decl')



THEAD = """#include <boost/hana.hpp>
#include <mpdef/MPDEF_DIRECTIVE.hpp>
#include <mpdef/append_if.hpp>
#include <mpdef/collect_settings.hpp>
#include <mpdef/compose_collectors.hpp>
#include <mpdef/find_in_tree.hpp>
#include <mpdef/group_by.hpp>
#include <mpdef/justify_type.hpp>
#include <mpdef/list.hpp>
#include <mpdef/map.hpp>
#include <mpdef/pair.hpp>
#include <mpdef/string.hpp>
#include <mpdef/tree_node.hpp>
namespace hana = boost::hana; using namespace hana::literals;
template <int i> using c = hana::integral_constant<int, i>;
template <int i> struct k { };
template <typename ...T> using L = mpdef::list<T...>;
template <typename ...T> using M = mpdef::map<T...>;
template <typename T, typename U> using P = mpdef::tree_node<T, U>;
template <typename T> T v() { return {}; }
template <typename T, typename U> constexpr bool same = std::is_same_v<std::remove_cvref_t<T>, U>;
// compares what may be either kind of sequence
template <typename T, typename ...U> constexpr bool seq = same<decltype(hana::unpack(std::declval<T>(), mpdef::make_list)), L<U...>>;
struct next { template <int i> constexpr c<i + 1> operator()(c<i>) const { return {}; } };
struct even { template <int i> constexpr hana::bool_<i % 2 == 0> operator()(c<i>) const { return {}; } };
struct is_key2 { template <int i> constexpr hana::bool_<i == 2> operator()(k<i>) const { return {}; } };
struct collect { template <typename S, typename X> constexpr auto operator()(S s, X x) const { return hana::append(s, x); } };
template <int n> struct times { template <typename S, int i> constexpr auto operator()(S s, c<i>) const { return hana::append(s, c<i * n>{}); } };
namespace d { MPDEF_DIRECTIVE(A) MPDEF_DIRECTIVE(B) MPDEF_DIRECTIVE(F) MPDEF_DIRECTIVE_LIST(W) MPDEF_DIRECTIVE_LEAF(id) MPDEF_DIRECTIVE_LEAF(s1) MPDEF_DIRECTIVE_LEAF(s2) MPDEF_DIRECTIVE_LEAF(s3)
MPDEF_DIRECTIVE_TYPE(type) MPDEF_DIRECTIVE_TYPE_LIST(types) }
namespace boost::hana { template <int i, int j> struct equal_impl<k<i>, k<j>> { template <typename T, typename U> static constexpr hana::bool_<i == j> apply(T, U) { return {}; } }; }
template <typename T> using tag_of = std::remove_cv_t<decltype(T{})>;
using tA = std::remove_cv_t<decltype(d::tag::A)>; using tB = std::remove_cv_t<decltype(d::tag::B)>; using tF = std::remove_cv_t<decltype(d::tag::F)>; using tW = std::remove_cv_t<decltype(d::tag::W)>;
using tid = std::remove_cv_t<decltype(d::tag::id)>; using t1 = std::remove_cv_t<decltype(d::tag::s1)>; using t2 = std::remove_cv_t<decltype(d::tag::s2)>; using t3 = std::remove_cv_t<decltype(d::tag::s3)>;
// the same, whether its tags are constant or not
template <typename T> struct un { using type = T; };
template <typename T> struct un<T const> : un<T> { };
template <typename ...T> struct un<L<T...>> { using type = L<typename un<T>::type...>; };
template <typename ...T> struct un<M<T...>> { using type = M<typename un<T>::type...>; };
template <typename T, typename U> struct un<P<T, U>> { using type = P<typename un<T>::type, typename un<U>::type>; };
template <typename T, typename U> constexpr bool like = std::is_same_v<typename un<std::remove_cvref_t<T>>::type, U>;
struct found { template <typename T> constexpr auto operator()(T) const { return hana::bool_c<std::is_same_v<std::remove_cv_t<decltype(hana::first(T{}))>, tF>>; } };
struct trail { template <typename S, typename T> constexpr auto operator()(S s, T) const { return hana::append(s, std::remove_cv_t<decltype(hana::first(T{}))>{}); } };
"""


class Trees:
    """random trees of definitions and what is to be found in them"""
    def __init__(self, seed):
        import random
        self.r = random.Random(seed)
        self.n = 0

    def leaf(self):
        self.n += 1
        return ('leaf', 'tid', f'c<{self.n}>')

    def make(self, size):
        """a branch: (kind, tag, children)"""
        r = self.r
        kind = r.choice(('map', 'map', 'list'))
        tag = 'tW' if kind == 'list' else r.choice(('tA', 'tB', 'tF'))
        kids = []
        if kind == 'map':
            for i in (1, 2, 3):
                if r.random() < .35:
                    self.n += 1
                    kids.append(('leaf', f't{i}', f'c<{self.n}>'))
        left = size
        while left > 0:
            sub = r.randint(0, left - 1)
            kids.append(self.make(sub))
            left -= sub + 1
        if r.random() < .5 or not kids:
            kids.append(self.leaf())
        r.shuffle(kids)
        return (kind, tag, kids)

    @staticmethod
    def text(t):
        if t[0] == 'leaf':
            return f'P<{t[1]}, {t[2]}>'
        return f'P<{t[1]}, {"M" if t[0] == "map" else "L"}<{", ".join(map(Trees.text, t[2]))}>>'

    @staticmethod
    def code(t):
        """written with the directives"""
        if t[0] == 'leaf':
            name = {'tid': 'id', 't1': 's1', 't2': 's2', 't3': 's3'}[t[1]]
            return f'd::{name}({t[2]}{{}})'
        return f'd::{t[1][1:]}({", ".join(map(Trees.code, t[2]))})'

    @staticmethod
    def find(t, trail=(), env=()):
        """the branches F that are not below another, in order, with the tags from the root and the settings that hold there"""
        if t[0] == 'leaf':
            return []
        env = dict(env)
        if t[0] == 'map':
            env.update({x[1]: x[2] for x in t[2] if x[0] == 'leaf'})
        trail = trail + (t[1],)
        if t[1] == 'tF':
            return [(t, trail, env)]
        return [f for x in t[2] for f in Trees.find(x, trail, env)]


def c41(chk):
    """Generated programs: all small lists and maps and three hundred trees of definitions; what each operation yields is a fact of the type-checked program, compared with the same operation on the generator's own lists, dictionaries and trees."""
    import itertools
    items = []

    def lst(x):
        return f'L<{", ".join(f"c<{i}>" for i in x)}>'

    def cs(x):
        return ''.join(f', c<{i}>' for i in x)
    lists = [x for n in range(5) for x in itertools.product(range(3), repeat=n)]
    for n in range(5):
        some = [x for x in lists if len(x) == n]
        for x in (some if n < 4 else some[::7]) + [tuple((3 * i * i + i) % 7 if j % 2 else (5 * i + j) % 4 for i in range(j)) for j in (range(5, 13) if n == 4 else ())] + ([tuple(i % 5 for i in range(20))] if n == 4 else []):
            t, fs = lst(x), []
            fs.append(('its length', f'decltype(hana::length({t}{{}}))::value == {len(x)} && decltype(hana::is_empty({t}{{}}))::value == {"true" if not x else "false"}'))
            fs += [(f'element {i}', f'same<decltype(hana::at_c<{i}>({t}{{}})), c<{e}>>') for i, e in enumerate(x)]
            fs += [(f'without the first {i}', f'seq<decltype(hana::drop_front({t}{{}}, hana::size_c<{i}>)){cs(x[i:])}>') for i in range(len(x) + 1)]
            fs.append(('unpacked and made', f'same<decltype(hana::unpack({t}{{}}, mpdef::make_list)), {t}> && same<decltype(mpdef::make_list({", ".join(f"c<{i}>{{}}" for i in x)})), {t}>'))
            fs.append(('transformed', f'seq<decltype(hana::transform({t}{{}}, next{{}})){cs([i + 1 for i in x])}>'))
            fs.append(('as a tuple', f'std::is_same_v<mpdef::to_tuple<{t}>, hana::tuple<{", ".join(f"c<{i}>" for i in x)}>>'))
            fs.append(('reversed', f'seq<decltype(hana::reverse({t}{{}})){cs(x[::-1])}>'))
            fs.append(('with one more', f'seq<decltype(hana::append({t}{{}}, c<9>{{}})){cs(x + (9,))}> && seq<decltype(hana::prepend({t}{{}}, c<9>{{}})){cs((9,) + x)}>'))
            fs.append(('what it contains', ' && '.join(f'decltype(hana::contains({t}{{}}, c<{i}>{{}}))::value == {"true" if i in x else "false"}' for i in range(4))))
            fs.append(('appended to where a condition holds', f'seq<decltype(hana::fold_left({t}{{}}, L<>{{}}, mpdef::append_if(even{{}}))){cs([i for i in x if i % 2 == 0])}>'))
            fs.append(('collected in three ways', f'same<decltype(hana::fold_left({t}{{}}, L<L<>, L<>, L<>>{{}}, mpdef::compose_collectors(times<1>{{}}, times<2>{{}}, times<3>{{}}))), '
                       f'L<{lst(x)}, {lst([2 * i for i in x])}, {lst([3 * i for i in x])}>>'))
            items.append((f'list<{",".join(map(str, x))}>', '', fs))
    items += [(f'more than {n} dropped', '', [(f'nothing is left of {n} without the first {i}', f'seq<decltype(hana::drop_front({lst(range(n))}{{}}, hana::size_c<{i}>))>') for i in range(n + 1, n + 3)])
              for n in range(4)]
    small = [x for x in lists if len(x) < 3]
    for x in small:
        items.append((f'lists with <{",".join(map(str, x))}>', '', [(f'{"equal" if x == y else "not equal"} to, and joined with, <{",".join(map(str, y))}>',
                      f'decltype({lst(x)}{{}} == {lst(y)}{{}})::value == {"true" if x == y else "false"} && decltype({lst(x)}{{}} != {lst(y)}{{}})::value == {"false" if x == y else "true"} && '
                      f'seq<decltype(hana::concat({lst(x)}{{}}, {lst(y)}{{}})){cs(x + y)}>') for y in small]))
    maps = [m for n in range(4) for keys in itertools.permutations(range(3), n) for vals in itertools.product(range(2), repeat=n) for m in (tuple(zip(keys, vals)),)]

    def mp(m):
        return f'M<{", ".join(f"P<k<{a}>, c<{b}>>" for a, b in m)}>'
    wide = [tuple((i * 5 % 6, v * i % 3) for i in range(6)) for v in (1, 2)] + [tuple((i, i % 3) for i in range(6)), tuple((i, i) for i in range(12)), tuple((i * 7 % 12, i * 7 % 12) for i in range(12)), tuple((i, i if i < 11 else 0) for i in range(12))]
    maps += wide
    for m in maps:
        t, d = mp(m), dict(m)
        fs = [('made of its pairs', f'same<decltype(mpdef::make_map({", ".join(f"mpdef::make_pair(k<{a}>{{}}, c<{b}>{{}})" for a, b in m)})), {t}>'),
              ('its keys', f'same<decltype(hana::keys({t}{{}})), L<{", ".join(f"k<{a}>" for a, _ in m)}>>'),
              ('unpacked', f'same<decltype(hana::unpack({t}{{}}, mpdef::make_list)), L<{", ".join(f"P<k<{a}>, c<{b}>>" for a, b in m)}>>')]
        for i in range(4):
            fs.append((f'what it has under key {i}', f'same<decltype(hana::find({t}{{}}, k<{i}>{{}})), hana::optional<{f"c<{d[i]}>" if i in d else ""}>> && decltype(hana::contains({t}{{}}, k<{i}>{{}}))::value == {"true" if i in d else "false"}'
                       + (f' && same<decltype({t}{{}}[k<{i}>{{}}]), c<{d[i]}>> && same<decltype(hana::at_key({t}{{}}, k<{i}>{{}})), c<{d[i]}>>' if i in d else '')))
        fs.append(('found by a condition on its keys', f'same<decltype(hana::find_if({t}{{}}, is_key2{{}})), hana::optional<{f"c<{d[2]}>" if 2 in d else ""}>> && decltype(hana::any_of({t}{{}}, is_key2{{}}))::value == {"true" if 2 in d else "false"}'))
        others = [x for x in maps if sorted(x) != sorted(m) and len(x) == len(m)][::5] + [x for x in maps if sorted(x) == sorted(m)] + [x for x in maps if len(x) != len(m)][::11] + (wide if m in wide else [])
        for o in others:
            e = dict(o) == d
            fs.append((f'{"equal" if e else "not equal"} to {mp(o)}', f'decltype({t}{{}} == {mp(o)}{{}})::value == {"true" if e else "false"} && decltype({t}{{}} != {mp(o)}{{}})::value == {"false" if e else "true"}'))
        items.append((f'map<{",".join(f"{a}:{b}" for a, b in m)}>', '', fs))
    g = Trees(1)
    broad = [('map', 'tA', []), ('list', 'tW', []), ('map', 'tB', [])]
    for i in range(300 + 6):
        g.n = 0
        t = g.make(i % 9)
        if i >= 300:
            # many children, and many levels
            kind, tag, _ = broad[i % 3]
            if i < 303:
                t = (kind, tag, [('map', 'tF', [g.leaf()]) if j % 4 == 1 else g.leaf() if j % 4 else ('list', 'tW', [g.leaf(), ('map', 'tF', [])]) for j in range(14 + i % 2)])
            else:
                t = ('map', 'tF', [g.leaf()])
                for j in range(9):
                    g.n += 1
                    t = (*broad[(i + j) % 3][:2], [('leaf', f't{j % 3 + 1}', f'c<{g.n}>')] * (broad[(i + j) % 3][0] == 'map' and j % 2) + [t] + [g.leaf()])
        text = g.text(t)
        hits = g.find(t)
        want = f'L<{", ".join(f"P<{g.text(x)}, L<{chr(44).join(tr)}>>" for x, tr, _ in hits)}>'
        opt = lambda env, s: f'P<{s}, hana::optional<{env.get(s, "")}>>'  # noqa: E731
        sets = f'L<{", ".join(f"P<{g.text(x)}, M<{opt(e, chr(116) + str(1))}, {opt(e, chr(116) + str(2))}, {opt(e, chr(116) + str(3))}>>" for x, _, e in hits)}>'
        items.append((f'tree{i}', f'using tree{i} = {text};', [
            ('the directives build the tree', f'like<decltype({g.code(t)}), tree{i}>'),
            ('what is found, in order, with the tags from the root', f'like<decltype(mpdef::find_in_tree({g.code(t)}, L<>{{}}, trail{{}}, found{{}})), {want}>'),
            ('the finder made of its parts finds the same', f'same<decltype(mpdef::create_in_tree_finder(found{{}}, trail{{}}, L<>{{}})(tree{i}{{}})), {want}>'),
            ('each with the settings that are nearest', f'like<decltype(mpdef::find_in_tree.with_settings(d::tag::s1, d::tag::s2, d::tag::s3)(found{{}})({g.code(t)})), {sets}>')]))
    r = g.r
    for i in range(60):
        n = r.randint(0, 7) if i < 56 else 12
        ent, out, v = [], {}, 0
        for _ in range(n):
            key = r.randint(0, 3)
            vals = [f'c<{v + j}>' for j in range(r.randint(0, 3))]
            v += len(vals)
            ent.append(f'L<k<{key}>, L<{", ".join(vals)}>>')
            out.setdefault(key, []).extend(vals)
        items.append((f'groups{i}', '', [('lists joined under their keys, in order', f'std::is_same_v<mpdef::group_by<L<{", ".join(ent)}>>, M<{", ".join(f"P<k<{a}>, L<{chr(44).join(b)}>>" for a, b in out.items())}>>')]))
    words = ['', 'a', 'bc', 'a-b', 'c']
    items.append(('texts', '', [(f'"{a}" and "{b}" joined'.replace('"', "'"), f'same<decltype(mpdef::string_concat("{a}"_s, "{b}"_s)), decltype("{a + b}"_s)>') for a in words for b in words]
                  + [(f"joined by '{sep}': {len(ws)}", f'same<decltype(mpdef::string_join("{sep}"_s, {", ".join(chr(34) + w + chr(34) + "_s" for w in ws)})), decltype("{sep.join(ws)}"_s)> && '
                      f'same<decltype(mpdef::string_join("{sep}"_s)({", ".join(chr(34) + w + chr(34) + "_s" for w in ws)})), decltype("{sep.join(ws)}"_s)>')
                     for sep in ('/', ', ') for ws in (['a'], ['a', 'b'], ['bc', '', 'a'], ['a', 'b', 'c', 'd'])]))
    items.append(('nodes', '', [
        ('a node has its two parts', 'same<decltype(hana::first(P<k<1>, c<2>>{})), k<1>> && same<decltype(hana::second(P<k<1>, c<2>>{})), c<2>>'),
        ('what is a node', 'decltype(mpdef::is_tree_node(P<k<1>, c<2>>{}))::value && !decltype(mpdef::is_tree_node(c<2>{}))::value && !decltype(mpdef::is_tree_node(L<>{}))::value'),
        ('a node is searched in its second part', 'same<decltype(hana::find(P<k<1>, M<P<k<2>, c<3>>>>{}, k<2>{})), hana::optional<c<3>>> && same<decltype(hana::find(P<k<1>, M<P<k<2>, c<3>>>>{}, k<1>{})), hana::optional<>>'),
        ('directives of types', f'same<decltype(d::type<int>), P<std::remove_cv_t<decltype(d::tag::type)>, hana::type<int>>> && same<decltype(d::types<int, char>), P<std::remove_cv_t<decltype(d::tag::types)>, hana::experimental::types<int, char>>>'),
        ('tags of directives differ', ' && '.join(f'!std::is_same_v<{a}, {b}>' for a, b in itertools.combinations(['tA', 'tB', 'tF', 'tW', 'tid', 't1', 't2', 't3'], 2))),
        ('what is there or not', 'same<decltype(mpdef::justify_type(hana::type_c<hana::optional<hana::type<int>>>)), hana::type<hana::optional<int>>> && same<decltype(mpdef::justify_type(hana::type_c<hana::optional<>>)), hana::type<hana::optional<> const>> && '
         'same<decltype(mpdef::justify_type(hana::type_c<hana::optional<hana::type<int>> const>)), hana::type<hana::optional<int>>>')]))
    chunks(chk, THEAD, items, 'tree')


CHECKS = {'C40': (c40, 600), 'C41': (c41, 2000)}
