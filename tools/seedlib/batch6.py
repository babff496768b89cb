PATHH = 'include/nbdl/path_promise.hpp'
RANGE = 'include/nbdl/store_range.hpp'
MATCH = 'include/nbdl/match.hpp'
seed('path-account-base', 'C38', 'a path step for a type the value held is derived from', 'a step for a type goes on with whatever is derived from that type',
     [(PATHH, 'if constexpr(decltype(hana::type_c<T> == hana::typeid_(result)){})', 'if constexpr(std::is_base_of<T, std::decay_t<decltype(result)>>::value || std::is_same<T, std::decay_t<decltype(result)>>::value)')],
     r'''
#include <nbdl/catch.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/variant.hpp>
struct base { int x; };
struct more : base { int y; };
int main()
{
  int told = 0;
  nbdl::variant<base, more> const v{more{{1}, 2}};
  nbdl::run_sync(nbdl::pipe([&]() -> auto const& { return v; }
  , nbdl::path_promise(nbdl::ui_spec::path_t<nbdl::ui_spec::match_type<base>>{})
  , nbdl::tap([&](auto const&) { told = 1; })
  , nbdl::catch_([&](auto const&) { told = 2; })));
  return told == 2 ? 0 : 1;
}
''')
seed('range-end-of-begin', 'C39', 'a range over a container that is read more than once, or that is changed by an action on an element while it is walked', 'an action for the element moves on to the next element',
     [(RANGE, 'return nbdl::apply_action(*(s.itr_pos), std::forward<Action>(a).value);', 'return nbdl::apply_action(*(s.itr_pos++), std::forward<Action>(a).value);')],
     r'''
#include <array>
#include <boost/hana.hpp>
#include <functional>
#include <nbdl/store_range.hpp>
#include <nbdl/variant.hpp>
struct key { };
struct a { int n; };
int main()
{
  using V = nbdl::variant<a>;
  std::array<V, 3> c{V{a{1}}, V{a{2}}, V{a{3}}};
  V base{};
  int n = 0, sum = 0;
  for (auto& s : nbdl::store_range(key{}, c, base))
  {
    ++n;
    nbdl::apply_action(s, nbdl::store_iterator_action<a>{a{n * 10}});
    if (n == 3) break;
  }
  for (auto& v : c) nbdl::match(v, [&](auto const& x) { if constexpr (requires { x.n; }) sum = sum * 100 + x.n; });
  return n == 3 && sum == 102030 ? 0 : 1;
}
''')
seed('range-derived-key', 'C39', 'a key that is derived from the key of the range', 'a key derived from the key of a range reads the element instead of the base store',
     [(RANGE, 'if constexpr(std::is_same<\n          std::decay_t<Key>\n        , typename std::decay_t<Store>::store_key_t\n        >::value)', 'if constexpr(std::is_convertible<\n          std::decay_t<Key>\n        , typename std::decay_t<Store>::store_key_t\n        >::value)')],
     r'''
#include <array>
#include <boost/hana.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/variant.hpp>
struct key { };
struct name : key { };
struct tag { };
struct base { using hana_tag = tag; };
struct a { int n; };
namespace nbdl { template <> struct match_impl<tag> { template <typename S, typename K, typename F> static void apply(S&&, K&&, F&& f) { f(a{7}); } }; }
int main()
{
  std::array<nbdl::variant<a>, 1> c{nbdl::variant<a>{a{1}}};
  int got = 0;
  for (auto& s : nbdl::store_range(key{}, c, base{})) nbdl::match(s, name{}, [&](auto const& x) { if constexpr (requires { x.n; }) got = x.n; });
  return got == 7 ? 0 : 1;
}
''')
seed('match-when-copy', 'C39', 'a function given to match_when that changes the value or keeps its address', 'match_when hands its function a copy',
     [(MATCH, 'f(std::forward<X>(x));\n    }\n  }\n\n  template <typename Searchable', 'T value = x;\n      f(std::move(value));\n    }\n  }\n\n  template <typename Searchable')],
     r'''
#include <boost/hana.hpp>
#include <nbdl/match.hpp>
#include <nbdl/variant.hpp>
struct a { int n; };
int main()
{
  nbdl::variant<a> v{a{1}};
  void const* inside = nullptr; void const* seen = nullptr;
  nbdl::match(v, [&](auto& x) { inside = &x; });
  nbdl::match_when<a>(v, [&](auto&& x) { seen = &x; });
  return inside == seen ? 0 : 1;
}
''')
seed('entity-many-members', 'C40', 'an entity of at least seventeen members', 'in an entity of 17 members or more one member is listed after those that follow it',
     [('include/nbdl/macros/NBDL_MEMBERS.hpp', '#define NBDL_MEMBERS18(NAME, MNAME, ...) NBDL_MEMBERS2(NAME, MNAME), \\\n\t NBDL_MEMBERS17(NAME, __VA_ARGS__)', '#define NBDL_MEMBERS18(NAME, MNAME, ...) NBDL_MEMBERS17(NAME, __VA_ARGS__), \\\n\t NBDL_MEMBERS2(NAME, MNAME)')],
     r'''
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/macros/NBDL_ENTITY.hpp>
namespace hana = boost::hana;
struct e { int a, b, c, d, e_, f, g, h, i, j, k, l, m, n, o, p, q; };
namespace nbdl { NBDL_ENTITY(e, a, b, c, d, e_, f, g, h, i, j, k, l, m, n, o, p, q) }
using first = std::decay_t<decltype(hana::at_c<0>(nbdl::entity_members<e>))>;
int main() { e x{}; x.a = 5; return x.*first::ptr == 5 ? 0 : 1; }
''')
seed('metastruct-key', 'C40', 'a metastruct with at least twelve keys', 'in a metastruct of 12 keys or more the twelfth key from the end reads its neighbour',
     [('include/mpdef/details/_MPDEF_METASTRUCT_KEYS.hpp', 'static constexpr auto NAME = at_c<length - 12>;', 'static constexpr auto NAME = at_c<length - 11>;')],
     r'''
#include <boost/hana.hpp>
#include <mpdef/MPDEF_METASTRUCT.hpp>
namespace hana = boost::hana;
MPDEF_METASTRUCT(ms, a, b, c, d, e, f, g, h, i, j, k, l, m)
constexpr auto x = make_ms(hana::int_c<0>, hana::int_c<1>, hana::int_c<2>, hana::int_c<3>, hana::int_c<4>, hana::int_c<5>, hana::int_c<6>, hana::int_c<7>, hana::int_c<8>, hana::int_c<9>, hana::int_c<10>, hana::int_c<11>, hana::int_c<12>);
int main() { return decltype(ms::b(x))::value == 1 ? 0 : 1; }
''')
seed('map-equal-keys', 'C41', 'two maps with the same keys and different values', 'maps are equal if they have the same keys',
     [('include/mpdef/map.hpp', '''        hana::demux(hana::equal)
        (
          hana::partial(hana::find, a),
          hana::partial(hana::find, b)
        )''', '''        hana::partial(hana::contains, b)''')],
     r'''
#include <boost/hana.hpp>
#include <mpdef/map.hpp>
#include <mpdef/tree_node.hpp>
namespace hana = boost::hana;
constexpr auto a = mpdef::make_map(mpdef::make_tree_node(hana::int_c<1>, hana::int_c<2>));
constexpr auto b = mpdef::make_map(mpdef::make_tree_node(hana::int_c<1>, hana::int_c<3>));
int main() { return decltype(a == b)::value ? 1 : 0; }
''')
seed('tree-settings-list', 'C41', 'a setting inherited through a branch that is a list', 'settings are not inherited through a branch that is a list',
     [('include/mpdef/collect_settings.hpp', '''  template<typename State, typename X>
  constexpr auto helper(State state, X, hana::false_) const
  {
    return state;
  }''', '''  template<typename State, typename X>
  constexpr auto helper(State state, X, hana::false_) const
  {
    return hana::unpack(hana::keys(state), [](auto ...key)
    {
      return mpdef::make_map(mpdef::make_tree_node(key, hana::nothing)...);
    });
  }''')],
     r'''
#include <boost/hana.hpp>
#include <mpdef/MPDEF_DIRECTIVE.hpp>
#include <mpdef/find_in_tree.hpp>
#include <mpdef/collect_settings.hpp>
namespace hana = boost::hana;
MPDEF_DIRECTIVE(A) MPDEF_DIRECTIVE(F) MPDEF_DIRECTIVE_LIST(W) MPDEF_DIRECTIVE_LEAF(S)
constexpr auto pred = hana::compose(hana::equal.to(tag::F), hana::first);
constexpr auto x = mpdef::find_in_tree.with_settings(tag::S)(pred)(A(S(hana::int_c<4>), W(F())));
int main() { return decltype(hana::at_key(hana::second(hana::at_c<0>(x)), tag::S) == hana::just(hana::int_c<4>))::value ? 0 : 1; }
''')
