// Parameters of a user interface: paths, branches and functions resolved against a store.
#include "wit.hpp"
#include <functional>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/ui_helper.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/detail/params_view.hpp>

namespace wit
{
  // what a store answers for a key: which alternative, and the value; whether a predicate holds of a value; what a function makes of its arguments
  extern "C" __attribute__((const, nothrow)) unsigned ask(int store, int key, u64 store_h, u64 key_h);
  extern "C" __attribute__((const, nothrow)) u64 child(int store, int key, u64 store_h, u64 key_h);
  extern "C" __attribute__((const, nothrow)) unsigned holds(int pred, int kind, u64);
  extern "C" __attribute__((const, nothrow)) u64 mix(int fn, int pos, int kind, u64 before, u64);
  // what the handler is given: position, alternative, value; and that it is called
  template <int pos, int kind> void evt_r_param(u64) noexcept;
  template <int n> void evt_handled() noexcept;
  void evt_index(u64) noexcept;
  void evt_flag(bool) noexcept;
  template <int pos> void evt_r_addr(void const*) noexcept;
  template <int n> void evt_branch() noexcept;

  using V = tval<1>; using W = tval<2>; using R = tval<3>;
  struct ui_tag { };
  template <int n> struct store { using hana_tag = ui_tag; u64 h; };
  struct missing { u64 h = 0; };

  template <typename T> struct kind_ { static constexpr int value = -1; };
  template <> struct kind_<V> { static constexpr int value = 1; };
  template <> struct kind_<W> { static constexpr int value = 2; };
  template <> struct kind_<missing> { static constexpr int value = 3; };
  template <> struct kind_<R> { static constexpr int value = 4; };
  template <int n> struct kind_<store<n>> { static constexpr int value = 10 + n; };
  template <> struct kind_<nbdl::ui_spec::noop_t> { static constexpr int value = 19; };
  template <int n> struct kind_<hana::int_<n>> { static constexpr int value = 20 + n; };
  template <typename T> constexpr int kind = kind_<std::remove_cvref_t<T>>::value;
  template <typename T> u64 value_of(T const& t) { if constexpr (requires { t.h; }) return t.h; else return 0; }
}
namespace nbdl
{
  template <> struct match_impl<wit::ui_tag>
  {
    template <typename S, typename Key, typename F> static void apply(S&& s, Key const& k, F&& f)
    {
      constexpr int n = []<int m>(wit::store<m>*) { return m; }((std::remove_cvref_t<S>*)nullptr);
      constexpr int key = wit::kind<Key>;
      wit::u64 const h = s.h, kh = wit::value_of(k);
      switch (wit::ask(n, key, h, kh))
      {
      case 0: f(wit::missing{wit::child(n, key, h, kh)}); break;
      case 1: { wit::V v(wit::child(n, key, h, kh)); f(v); break; }
      default: if constexpr (n < 3) { wit::store<n + 1> next{wit::child(n, key, h, kh)}; f(next); } else { wit::W w(wit::child(n, key, h, kh)); f(w); } break;
      }
    }
  };
}
namespace wit
{
  struct see
  {
    template <typename ...X> void operator()(X const& ...x) const
    { go(std::index_sequence_for<X...>{}, x...); }
    template <std::size_t ...i, typename ...X> static void go(std::index_sequence<i...>, X const& ...x)
    { (evt_r_param<i, kind<X>>(value_of(x)), ...); evt_handled<sizeof...(X)>(); }
  };
  template <int fn> struct fun
  {
    template <typename ...X> R operator()(X const& ...x) const { return go(std::index_sequence_for<X...>{}, x...); }
    template <std::size_t ...i, typename ...X> static R go(std::index_sequence<i...>, X const& ...x)
    { u64 r = sizeof...(X); ((r = mix(fn, i, kind<X>, r, value_of(x))), ...); return R(r); }
  };
  template <int p> struct pred { template <typename X> bool operator()(X const& x) const { return holds(p, kind<X>, value_of(x)) != 0; } };
  struct yes { template <typename X> constexpr hana::true_ operator()(X const&) const { return {}; } };
  struct no { template <typename X> constexpr hana::false_ operator()(X const&) const { return {}; } };
  template <int n> constexpr hana::int_<n> k{};
  template <typename ...P> constexpr auto list(P ...) { return mpdef::list<P...>{}; }
}
using namespace wit;
namespace us = nbdl::ui_spec;
namespace uh = nbdl::ui_helper;
using us::get; using us::get_fn; using us::match; using us::match_if; using us::when; using us::cond; using us::otherwise; using us::match_when; using us::key_at; using us::apply; using us::concat;

#define PARAMS(N, ...) \
  WIT void wit_ui_##N(u64 h) { store<1> s{h}; uh::match_params_spec(std::ref(s), list(__VA_ARGS__), see{}); } \
  WIT void wit_uiv_##N(u64 h) { store<1> s{h}; uh::match_params_spec(s, list(__VA_ARGS__), see{}); }
#define PATH(N, ...) \
  WIT void wit_path_##N(u64 h) { store<1> s{h}; uh::match_path_spec(s, __VA_ARGS__, see{}); }

// parameters
PARAMS(const, k<4>)
PARAMS(none)
PARAMS(one, get(k<0>))
PARAMS(three, k<5>, get(k<0>), k<6>)
PARAMS(deep, get(k<0>, k<1>))
PARAMS(two, get(k<0>), get(k<1>))
PARAMS(grow, get(get(k<0>), k<1>), get(k<2>))
PARAMS(cat, concat(k<5>, get(k<0>)), k<6>)
PARAMS(catcat, k<4>, concat(concat(get(k<0>), k<5>), k<6>))
PARAMS(same, get(k<0>), get(k<0>))
// a key that is read from the store
PARAMS(keyat, get(key_at(get(k<0>))))
PARAMS(keyat2, get(k<1>, key_at(get(k<0>))))
PARAMS(keyatc, get(key_at(get(k<0>)), k<1>))
// only values of one type
PARAMS(onlyv, match_when<V>(get(k<0>)))
PARAMS(onlyv2, match_when<V>(get(k<0>, k<1>)))
PARAMS(onlys, match_when<store<2>>(get(k<0>)))
PARAMS(onlym, k<5>, match_when<missing>(get(k<0>)), get(k<1>))
PARAMS(below, get(match_when<store<2>>(get(k<0>)), k<1>))
PARAMS(below2, get(match_when<store<2>>(get(k<0>)), k<1>, k<2>))
// branches by type
PARAMS(br, match(get(k<0>), when<V>(k<7>), when<missing>(k<8>), when<store<2>>(k<9>)))
PARAMS(brget, k<4>, match(get(k<0>), when<V>(get_fn{}), when<>(k<8>)), k<5>)
PARAMS(brdef, match(get(k<0>), when<V>(k<7>), when<>()), get(k<1>))
PARAMS(brfirst, match(get(k<0>), when<>(k<8>), when<V>(k<7>)))
PARAMS(brmany, match(get(k<0>), when<missing>(concat(k<7>, get(k<1>))), when<>(concat(get(k<2>), k<8>, k<9>))), k<4>)
PARAMS(brdeep, match(get(k<0>, k<1>), when<V>(get_fn{}), when<missing>(get(k<2>)), when<>(k<8>)))
PARAMS(brbr, match(get(k<0>), when<V>(match(get(k<1>), when<missing>(k<7>), when<>(k<8>))), when<>(k<9>)))
PARAMS(brdefget, match(get(k<0>), when<V>(k<7>), when<>(get_fn{})))
// branches by predicate
PARAMS(cond, match_if(get(k<0>), cond(pred<0>{}, k<7>), cond(pred<1>{}, get_fn{}), otherwise(k<8>)))
PARAMS(condc, match_if(get(k<0>), cond(no{}, k<7>), cond(pred<0>{}, k<8>), cond(yes{}, k<9>), cond(pred<1>{}, k<4>)), get(k<1>))
PARAMS(condbr, match_if(get(k<0>), cond(pred<0>{}, match(get(k<1>), when<V>(get_fn{}), when<>(k<7>))), otherwise(get(k<2>))))
PARAMS(iter, match_if(get(k<0>, k<1>), cond(pred<0>{}, [](auto p) { return concat(k<5>, get(p)); }), otherwise(concat(get(k<2>), k<6>))), k<4>)
// functions
PARAMS(fn, apply(fun<0>{})(get(k<0>)))
PARAMS(fn2, k<4>, apply(fun<0>{})(get(k<0>), k<5>, get(k<1>)), k<6>)
PARAMS(fnfn, apply(fun<0>{})(apply(fun<1>{})(get(k<0>)), get(k<1>)))
PARAMS(fncat, apply(fun<0>{})(concat(k<5>, get(k<0>)), k<6>))
PARAMS(fnbr, apply(fun<0>{})(match(get(k<0>), when<V>(k<7>), when<>(get(k<1>)))))
PARAMS(brfn, match(get(k<0>), when<V>(apply(fun<0>{})(get(k<1>))), when<>(apply(fun<1>{})(k<5>))), k<6>)
PARAMS(twofn, apply(fun<0>{})(get(k<0>)), apply(fun<1>{})(get(k<1>)))
PARAMS(fnonly, apply(fun<0>{})(match_when<V>(get(k<0>))), k<6>)

// paths
PATH(one, get(k<0>))
PATH(three, get(k<0>, k<1>, k<2>))
PATH(grow, get(get(get(k<0>), k<1>), k<2>))
PATH(none, get())
PATH(keyat, get(k<0>, key_at(get(k<1>, k<2>))))
PATH(onlyv, match_when<V>(get(k<0>)))
PATH(onlyw, match_when<W>(get(k<0>, k<1>, k<2>)))
PATH(onlyone, match_when<store<2>>(get(k<0>)))
PATH(below, get(match_when<store<2>>(get(k<0>)), k<1>, k<2>))
PATH(belowkey, get(match_when<store<2>>(get(k<0>)), key_at(get(k<1>))))
PATH(belowonly, get(match_when<V>(get(k<0>))))
// three parts and more
WIT void wit_path_only3(u64 h) { store<1> s{h}; uh::match_path_spec(s, us::path_t<us::match_type<V>, us::get_t<hana::int_<1>>, us::match_type<store<2>, hana::int_<0>>>{}, see{}); }
WIT void wit_path_only4(u64 h) { store<1> s{h}; uh::match_path_spec(s, us::path_t<us::match_type<V>, us::get_t<hana::int_<2>>, us::match_type<store<3>, hana::int_<1>>, us::match_type<store<2>, hana::int_<0>>>{}, see{}); }
WIT void wit_path_only5(u64 h) { store<1> s{h}; uh::match_path_spec(s, us::path_t<us::match_type<W>, us::get_t<hana::int_<2>>, us::match_type<store<3>, hana::int_<1>>, us::match_type<store<2>>, us::get_t<hana::int_<0>>>{}, see{}); }

// is it there, and is it of that type?
template <typename T, typename P> bool is_at(store<1>& s, P) { return uh::match_path_spec_predicate<T, P>(s); }
WIT void wit_is_v(u64 h) { store<1> s{h}; evt_flag(is_at<V>(s, get(k<0>))); }
WIT void wit_is_deep(u64 h) { store<1> s{h}; evt_flag(is_at<missing>(s, get(k<0>, k<1>))); }
WIT void wit_is_store(u64 h) { store<1> s{h}; evt_flag(is_at<store<3>>(s, get(k<0>, k<1>))); }
WIT void wit_is_below(u64 h) { store<1> s{h}; evt_flag(is_at<V>(s, get(match_when<store<2>>(get(k<0>)), k<1>))); }

// the branch that is taken
template <typename S> constexpr auto flat(S s) { return uh::flatten_param_node(s); }
template <typename S> void index_of(store<1>& s, S) { evt_index(uh::get_branch_index<S>(s)); }
template <typename S, typename A> void branch_of(A a, S) { uh::match_branch<S>(a, [](auto i, auto spec) { evt_index(i); evt_flag(kind<decltype(spec)> == (std::size_t)decltype(i)::value + 27); }); }
#define BRANCH(N, ...) \
  WIT void wit_index_##N(u64 h) { store<1> s{h}; index_of(s, __VA_ARGS__); } \
  WIT void wit_branch_##N(u64 h) { store<1> s{h}; branch_of(s, __VA_ARGS__); } \
  WIT void wit_bindex_##N(u64 i) { if (i < 3) branch_of(static_cast<std::size_t>(i), __VA_ARGS__); }
BRANCH(type, match(get(k<0>), when<V>(k<7>), when<missing>(k<8>), when<>(k<9>)))
BRANCH(deep, match(get(k<0>, k<1>), when<missing>(k<7>), when<store<3>>(k<8>), when<>(k<9>)))
BRANCH(first, match(get(k<0>), when<V>(k<7>), when<>(k<8>), when<missing>(k<9>)))
BRANCH(cond, match_if(get(k<0>), cond(pred<0>{}, k<7>), cond(pred<1>{}, k<8>), otherwise(k<9>)))
BRANCH(condc, match_if(get(k<0>), cond(no{}, k<7>), cond(pred<1>{}, k<8>), cond(yes{}, k<9>)))
WIT void wit_equal(u64 x) { evt_flag(us::equal(hana::ulong_c<5>)(x)); }

// lists of references and constants
#define VIEW(N, ...) WIT void wit_view_##N(u64 a, u64 b, u64 c) { V v(a); W w(b); R r(c); (void)v; (void)w; (void)r; auto p = __VA_ARGS__; hana::unpack(p, [](auto ...x) { see{}(std::ref(x).get()...); }); }
namespace
{
  constexpr auto none = nbdl::detail::make_params_view;
  template <typename P> auto app(P p) { return p; }
  template <typename P, typename X, typename ...Xs> auto app(P p, X x, Xs ...xs) { return app(nbdl::detail::params_view_append(x, p), xs...); }
  constexpr auto plus = nbdl::detail::params_view_concat;
}
VIEW(empty, app(none()))
VIEW(c, app(none(), k<4>))
VIEW(r, app(none(), std::ref(v)))
VIEW(cr, app(none(), k<4>, std::cref(v)))
VIEW(rc, app(none(), std::ref(v), k<4>))
VIEW(rcrcr, app(none(), std::ref(v), k<4>, std::cref(w), k<5>, std::ref(r)))
VIEW(rrr, app(none(), std::ref(r), std::ref(w), std::ref(v)))
VIEW(rrrc, app(none(), std::ref(r), std::ref(w), std::ref(v), k<4>, k<5>))
VIEW(e_e, plus(app(none()), app(none())))
VIEW(e_r, plus(app(none()), app(none(), std::ref(v))))
VIEW(r_e, plus(app(none(), std::ref(v)), app(none())))
VIEW(c_c, plus(app(none(), k<4>), app(none(), k<5>)))
VIEW(rc_rc, plus(app(none(), std::ref(v), k<4>), app(none(), std::ref(w), k<5>)))
VIEW(cr_crr, plus(app(none(), k<4>, std::ref(v)), app(none(), k<5>, std::ref(w), std::ref(r))))
VIEW(rr_cr, plus(app(none(), std::ref(w), std::ref(r)), app(none(), k<5>, std::ref(v))))
VIEW(rr_rr, plus(app(none(), std::ref(w), std::ref(r)), app(none(), std::ref(v), std::ref(w))))
VIEW(catapp, app(plus(app(none(), std::ref(w)), app(none(), k<4>, std::ref(r))), std::ref(v), k<5>, std::ref(w)))
