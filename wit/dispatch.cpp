// Following paths through stores and states; choosing handlers by type and predicate.
#include "wit.hpp"
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/null_store.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
#include <nbdl/detail/match_if.hpp>
#include <functional>

namespace wit
{
  // a store looked into, and the answer it gives
  template <int store, bool is_const> int evt_step(void const* at, u64 key) noexcept;
  template <int store> u64 evt_child(u64) noexcept;
  template <int kind, bool is_const> void evt_r_seen(u64 value) noexcept;
  template <int slot> void evt_r_addr(void const*) noexcept;
  template <int handler, int kind> void evt_handled(u64) noexcept;
  template <int i> bool evt_pred(u64) noexcept;
  void evt_index(u64) noexcept;
  template <int i> void evt_chosen() noexcept;
  void evt_flag(bool) noexcept;
  void evt_out(u64) noexcept;
  // a handler is given something it may take
  template <int kind> void evt_r_given() noexcept;
  template <typename T> void given();

  using V = tval<1>; using W = tval<2>; using K = tval<3>;
  struct step_tag { };
  template <int n> struct store { using hana_tag = step_tag; u64 h; };
  struct missing { u64 h = 0; };
  struct unit_tag { };
  // a store with a value of its own and values by key
  struct cell { using hana_tag = unit_tag; V v; };
}
namespace nbdl
{
  // store n answers with store n + 1, with a value, or not at all
  template <> struct match_impl<wit::step_tag>
  {
    template <int n, bool c> struct of { static constexpr int value = n; };
    template <typename S, typename F> static void go(S&& s, wit::u64 k, F&& f) // S tells how it is asked
    {
      constexpr int n = []<int m>(wit::store<m>*) { return m; }((std::remove_cvref_t<S>*)nullptr);
      if constexpr (!std::is_lvalue_reference_v<S>) wit::evt_r_given<20 + n>();
      switch (wit::evt_step<n, std::is_const_v<std::remove_reference_t<S>>>(&s, k))
      {
      case 0: std::forward<F>(f)(wit::missing{wit::evt_child<n>(0)}); break;
      case 1: { wit::V v(wit::evt_child<n>(1)); wit::evt_r_addr<100 + n>(&v); std::forward<F>(f)(v); break; }
      default: if constexpr (n < 4) { wit::store<n + 1> next{wit::evt_child<n>(2)}; wit::evt_r_addr<200 + n>(&next); std::forward<F>(f)(next); } else { wit::W w(wit::evt_child<n>(2)); std::forward<F>(f)(w); } break;
      }
    }
    template <typename S, typename F> static void apply(S&& s, wit::K const& k, F&& f) { go(static_cast<S&&>(s), k.h, static_cast<F&&>(f)); }
    template <typename S, typename F> static void apply(S&& s, wit::u64 const& k, F&& f) { go(static_cast<S&&>(s), k, static_cast<F&&>(f)); }
  };
  template <> struct match_impl<wit::unit_tag>
  {
    template <typename S, typename F> static constexpr void apply(S&& s, F&& f) { std::forward<F>(f)(std::forward<S>(s).v); }
    template <typename S, typename F> static constexpr void apply(S&& s, wit::K const& k, F&& f) { std::forward<F>(f)(wit::W(k.h)); }
  };
}
namespace wit
{
  struct inner { V p; W q; };
  struct outer { inner x; V y; inner z; };
  struct holds { u64 n; nbdl::optional<inner> o; };
}
namespace nbdl
{
  NBDL_ENTITY(wit::inner, p, q);
  NBDL_ENTITY(wit::outer, x, y, z);
  NBDL_ENTITY(wit::holds, n, o);
}
namespace wit
{
  template <typename T> constexpr int kind_of = std::is_same_v<T, V> ? 1 : std::is_same_v<T, W> ? 2 : std::is_same_v<T, missing> ? 3 : std::is_same_v<T, inner> ? 4 :
    std::is_same_v<T, outer> ? 5 : std::is_same_v<T, nbdl::nothing> ? 6 : std::is_same_v<T, nbdl::unresolved> ? 7 : std::is_same_v<T, K> ? 8 : std::is_same_v<T, cell> ? 9 :
    std::is_same_v<T, u64> ? 10 : std::is_same_v<T, store<1>> ? 11 : std::is_same_v<T, store<2>> ? 12 : std::is_same_v<T, store<3>> ? 13 : std::is_same_v<T, store<4>> ? 14 : -1;
  template <typename T> void given() { if constexpr (!std::is_lvalue_reference_v<T>) evt_r_given<kind_of<std::remove_cvref_t<T>>>(); }
  template <typename T> u64 value_of(T const& t)
  { if constexpr (requires { t.h; }) return t.h; else if constexpr (std::is_same_v<T, u64>) return t; else if constexpr (std::is_same_v<T, inner>) return t.p.h * 3 + t.q.h; else if constexpr (std::is_same_v<T, cell>) return t.v.h; else return 0; }
  struct see
  {
    template <typename T> constexpr void operator()(T&& x) const
    { using P = std::remove_cvref_t<T>; evt_r_seen<kind_of<P>, std::is_const_v<std::remove_reference_t<T>>>(value_of(x)); evt_r_addr<0>(&x); given<T>(); }
  };
  template <int n, typename T> struct on
  {
    constexpr void operator()(T const& x) const { evt_handled<n, kind_of<T>>(value_of(x)); }
    constexpr void operator()(T&& x) const { evt_handled<n, kind_of<T>>(value_of(x)); given<T>(); }
  };
  template <int n> struct any { template <typename T> constexpr void operator()(T&& x) const { evt_handled<n, kind_of<std::remove_cvref_t<T>>>(value_of(x)); given<T>(); } };
  // handlers of their own
  struct own
  {
    V v;
    own(u64 x) : v(x) { }
    template <typename T> void operator()(T const&) const { evt_out(v.h); }
  };
  auto key = [](u64 x) { return K(x); };
}
using namespace wit;
auto const x_ = BOOST_HANA_STRING("x"); auto const y_ = BOOST_HANA_STRING("y"); auto const z_ = BOOST_HANA_STRING("z");
auto const p_ = BOOST_HANA_STRING("p"); auto const q_ = BOOST_HANA_STRING("q"); auto const o_ = BOOST_HANA_STRING("o"); auto const n_ = BOOST_HANA_STRING("n");

// Paths through opaque stores.
WIT void wit_path_0(store<1>& s) { nbdl::match_path(s, hana::make_tuple(), see{}); }
WIT void wit_path_1(store<1>& s, u64 a) { nbdl::match_path(s, hana::make_tuple(K(a)), see{}); }
WIT void wit_path_2(store<1>& s, u64 a, u64 b) { nbdl::match_path(s, hana::make_tuple(K(a), u64(b)), see{}); }
WIT void wit_path_3(store<1>& s, u64 a, u64 b, u64 c) { nbdl::match_path(s, hana::make_tuple(K(a), K(b), K(c)), see{}); }
WIT void wit_path_4(store<1>& s, u64 a, u64 b, u64 c, u64 d) { nbdl::match_path(s, hana::make_tuple(K(a), K(b), K(c), K(d)), see{}); }
WIT void wit_pathc_2(store<1> const& s, u64 a, u64 b) { nbdl::match_path(s, hana::make_tuple(K(a), u64(b)), see{}); }
// the path is left as it is
WIT void wit_pathl_3(store<1>& s, u64 a, u64 b, u64 c) { auto p = hana::make_tuple(K(a), K(b), K(c)); nbdl::match_path(s, p, see{}); evt_out(p[hana::size_c<0>].h); evt_out(p[hana::size_c<1>].h); evt_out(p[hana::size_c<2>].h); }
WIT void wit_pathk_3(store<1>& s, u64 a, u64 b, u64 c) { auto const p = hana::make_tuple(K(a), K(b), K(c)); nbdl::match_path(s, p, see{}); evt_out(p[hana::size_c<0>].h); evt_out(p[hana::size_c<1>].h); evt_out(p[hana::size_c<2>].h); }
// the first handler that takes what is found
WIT void wit_over_1(store<1>& s, u64 a) { nbdl::match_path(s, hana::make_tuple(K(a)), on<1, V>{}, on<2, missing>{}, any<3>{}); }
WIT void wit_over_2(store<1>& s, u64 a, u64 b) { nbdl::match_path(s, hana::make_tuple(K(a), K(b)), on<1, missing>{}, any<2>{}, on<3, V>{}); }
WIT void wit_over_4(store<1>& s, u64 a, u64 b, u64 c, u64 d) { nbdl::match_path(s, hana::make_tuple(K(a), K(b), K(c), K(d)), on<1, W>{}, on<2, V>{}, any<3>{}); }
// a path that ends at a store with a value of its own
WIT void wit_path_cell0(cell& s) { nbdl::match_path(s, hana::make_tuple(), see{}); evt_r_addr<1>(&s.v); evt_out(s.v.h); }
WIT void wit_path_cell1(cell& s, u64 a) { nbdl::match_path(s, hana::make_tuple(K(a)), see{}); }
WIT void wit_path_value(V& v) { nbdl::match_path(v, hana::make_tuple(), see{}); evt_r_addr<1>(&v); evt_out(v.h); }

// Paths through entities.
#define E1(N, P, M) \
  WIT void wit_ent_##N(outer& e) { nbdl::match_path(e, hana::make_tuple P, see{}); evt_r_addr<1>(&e.M); evt_out(value_of(e.M)); } \
  WIT void wit_entc_##N(outer const& e) { nbdl::match_path(e, hana::make_tuple P, see{}); evt_r_addr<1>(&e.M); evt_out(value_of(e.M)); } \
  WIT void wit_getp_##N(outer& e) { see{}(nbdl::get_path(e, hana::make_tuple P)); evt_r_addr<1>(&e.M); evt_out(value_of(e.M)); } \
  WIT void wit_getpc_##N(outer const& e) { see{}(nbdl::get_path(e, hana::make_tuple P)); evt_r_addr<1>(&e.M); evt_out(value_of(e.M)); }
E1(x, (x_), x) E1(y, (y_), y) E1(z, (z_), z) E1(xp, (x_, p_), x.p) E1(xq, (x_, q_), x.q) E1(zp, (z_, p_), z.p) E1(zq, (z_, q_), z.q)
WIT void wit_opt_n(holds& e) { nbdl::match_path(e, hana::make_tuple(n_), see{}); evt_r_addr<1>(&e.n); evt_out(e.n); }
WIT void wit_opt_some(u64 n, u64 p, u64 q) { holds e{n, inner{V(p), W(q)}}; nbdl::match_path(e, hana::make_tuple(o_, q_), see{}); }
WIT void wit_opt_whole(u64 n, u64 p, u64 q) { holds e{n, inner{V(p), W(q)}}; nbdl::match_path(e, hana::make_tuple(o_), see{}); }
WIT void wit_opt_none(u64 n) { holds e{n, nbdl::nothing{}}; nbdl::match_path(e, hana::make_tuple(o_, q_), see{}); }

// Matching directly.
WIT void wit_match_unit(cell& s) { nbdl::match(s, see{}); evt_r_addr<1>(&s.v); evt_out(s.v.h); }
WIT void wit_match_unitc(cell const& s) { nbdl::match(s, see{}); evt_r_addr<1>(&s.v); evt_out(s.v.h); }
WIT void wit_match_key(cell& s, u64 a) { nbdl::match(s, K(a), see{}); }
WIT void wit_match_self(store<1>& s) { nbdl::match(s, see{}); evt_r_addr<1>(&s); evt_out(s.h); }
WIT void wit_match_plain(V& s) { nbdl::match(s, see{}); evt_r_addr<1>(&s); evt_out(s.h); }
WIT void wit_match_ref(cell& s, u64 a) { nbdl::match(std::ref(s), K(a), see{}); }
WIT void wit_match_refunit(cell& s) { nbdl::match(std::ref(s), see{}); evt_r_addr<1>(&s.v); evt_out(s.v.h); }
WIT void wit_match_refstep(store<4>& s, u64 a) { nbdl::match(std::ref(s), K(a), see{}); }
WIT void wit_match_crefstep(store<4>& s, u64 a) { nbdl::match(std::cref(s), K(a), see{}); }
using alias = nbdl::strong_alias<cell>; using salias = nbdl::strong_alias<store<4>>; using ealias = nbdl::strong_alias<inner>; using valias = nbdl::strong_alias<V>;
WIT void wit_alias_unit(u64 v) { alias s{V(v)}; nbdl::match(s, see{}); evt_r_addr<1>(&s.nbdl_get_strong_alias_value().v); evt_out(v); }
WIT void wit_alias_key(u64 v, u64 a) { alias s{V(v)}; nbdl::match(s, K(a), see{}); }
WIT void wit_alias_step(u64 v, u64 a) { salias s{v}; nbdl::match(s, K(a), see{}); evt_r_addr<1>(&s.nbdl_get_strong_alias_value()); }
WIT void wit_alias_state(u64 p, u64 q) { ealias s{V(p), W(q)}; see{}(nbdl::get(s, q_)); evt_r_addr<1>(&s.nbdl_get_strong_alias_value().q); evt_out(q); }
WIT void wit_alias_match(u64 p, u64 q) { ealias s{V(p), W(q)}; nbdl::match(s, p_, see{}); evt_r_addr<1>(&s.nbdl_get_strong_alias_value().p); evt_out(p); }
WIT void wit_alias_copy(u64 a) { valias s{V(a)}, t{s}; evt_out(s.nbdl_get_strong_alias_value().h); evt_out(t.nbdl_get_strong_alias_value().h);
  valias const c{t}; valias d{c}; evt_out(d.nbdl_get_strong_alias_value().h); valias r{std::move(s)}; evt_out(r.nbdl_get_strong_alias_value().h); }
using calias = nbdl::context_alias<cell>; using falias = nbdl::context_alias<cell, false>;
WIT void wit_alias_write(u64 a, u64 b) { valias s{V(b)}; s.nbdl_get_strong_alias_value().h = a; evt_out(s.nbdl_get_strong_alias_value().h); calias c{V(b)}; c.nbdl_get_context_alias_value().v.h = a; evt_out(c.nbdl_get_context_alias_value().v.h);
  falias u{V(b)}; u.nbdl_get_context_alias_value().v.h = a; evt_out(u.nbdl_get_context_alias_value().v.h); }
WIT void wit_calias(u64 a) { calias s{V(a)}, t{s}; evt_out(s.nbdl_get_context_alias_value().v.h); evt_out(t.nbdl_get_context_alias_value().v.h); calias r{std::move(s)}; evt_out(r.nbdl_get_context_alias_value().v.h);
  falias u{V(a)}; evt_out(u.nbdl_get_context_alias_value().v.h); evt_flag(std::is_copy_constructible_v<falias> || std::is_move_constructible_v<falias>); }

// Reading states.
WIT void wit_get_tuple(u64 a, u64 b, u64 c) { auto t = hana::make_tuple(V(a), W(b), K(c)); see{}(nbdl::get(t, hana::type_c<W>)); evt_r_addr<1>(&t[hana::size_c<1>]); evt_out(b); }
WIT void wit_get_tuple0(u64 a, u64 b, u64 c) { auto t = hana::make_tuple(V(a), W(b), K(c)); see{}(nbdl::get(t, hana::type_c<V>)); evt_r_addr<1>(&t[hana::size_c<0>]); evt_out(a); }
WIT void wit_get_tuple2(u64 a, u64 b, u64 c) { auto t = hana::make_tuple(V(a), W(b), K(c)); see{}(nbdl::get(t, hana::type_c<K>)); evt_r_addr<1>(&t[hana::size_c<2>]); evt_out(c); }
WIT void wit_get_first(u64 a, u64 b) { auto t = hana::make_pair(V(a), W(b)); see{}(nbdl::get(t, hana::first)); evt_r_addr<1>(&hana::first(t)); evt_out(a); }
WIT void wit_get_second(u64 a, u64 b) { auto t = hana::make_pair(V(a), W(b)); see{}(nbdl::get(t, hana::second)); evt_r_addr<1>(&hana::second(t)); evt_out(b); }
WIT void wit_get_map(u64 a, u64 b) { auto t = hana::make_map(hana::make_pair(x_, V(a)), hana::make_pair(y_, W(b))); see{}(nbdl::get(t, y_)); evt_r_addr<1>(&t[y_]); evt_out(b); }
WIT void wit_get_ref(inner& e) { see{}(nbdl::get(std::ref(e), p_)); evt_r_addr<1>(&e.p); evt_out(e.p.h); }
WIT void wit_get_cref(inner& e) { see{}(nbdl::get(std::cref(e), q_)); evt_r_addr<1>(&e.q); evt_out(e.q.h); }
WIT void wit_null(u64 a) { nbdl::null_store s{}; evt_flag(bool(decltype(nbdl::apply_message(s, K(a)))::value)); }

// Choosing by type.
auto const table = hana::make_map(hana::make_pair(hana::type_c<V>, on<1, V>{}), hana::make_pair(hana::type_c<W>, on<2, W>{}));
WIT void wit_table_v(u64 a) { nbdl::mapped_overload(table, any<9>{})(V(a)); }
WIT void wit_table_vl(u64 a) { V v(a); nbdl::mapped_overload(table, any<9>{})(v); }
WIT void wit_table_w(u64 a) { W const v(a); nbdl::mapped_overload(table, any<9>{})(v); }
WIT void wit_table_k(u64 a) { nbdl::mapped_overload(table, any<9>{})(K(a)); }
WIT void wit_table_step(store<4>& s, u64 k) { nbdl::match(s, K(k), nbdl::mapped_overload(table, any<9>{})); }
WIT void wit_when_v(u64 a) { nbdl::match_when<V>(any<1>{})(V(a)); }
WIT void wit_when_vl(u64 a) { V const v(a); nbdl::match_when<V>(any<1>{})(v); }
WIT void wit_when_w(u64 a) { nbdl::match_when<V>(any<1>{})(W(a)); }
WIT void wit_when_unit(cell& s) { nbdl::match_when<V>(s, any<1>{}); evt_out(s.v.h); }
WIT void wit_when_key(cell& s, u64 k) { nbdl::match_when<W>(s, K(k), any<1>{}); }
WIT void wit_when_keyno(cell& s, u64 k) { nbdl::match_when<V>(s, K(k), any<1>{}); }
WIT void wit_when_step(store<4>& s, u64 k) { nbdl::match_when<V>(s, K(k), any<1>{}); }
using vh = nbdl::variant_holder<V, W, missing>;
#define VH(i, INIT) \
  WIT void wit_holder_##i(u64 a) { vh v{INIT}; nbdl::match(v, nbdl::variant_value, see{}); nbdl::match(v, nbdl::variant_index, [](std::size_t n) { evt_index(n); }); nbdl::match(v, nbdl::variant_value, see{}); } \
  WIT void wit_holderc_##i(u64 a) { vh const v{INIT}; nbdl::match(v, nbdl::variant_value, see{}); nbdl::match(v, nbdl::variant_index, [](std::size_t n) { evt_index(n); }); nbdl::match(v, nbdl::variant_value, see{}); }
VH(0, V(a)) VH(1, W(a)) VH(2, missing{a})

// Choosing by predicate.
template <int i> struct pred { bool operator()(u64 v) const { return evt_pred<i>(v); } };
struct yes { constexpr hana::true_ operator()(u64) const { return {}; } };
struct no { constexpr hana::false_ operator()(u64) const { return {}; } };
struct chosen { template <typename I> void operator()(I) const { evt_chosen<int(I::value)>(); } };
#define MI(N, ...) \
  WIT void wit_ifp_##N(u64 v) { nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(mpdef::make_list(__VA_ARGS__)), [](auto i) { evt_index(i); chosen{}(i); }), v); } \
  WIT void wit_if_##N(u64 v) { evt_index(nbdl::detail::match_if(mpdef::make_list(__VA_ARGS__), v)); }
MI(4, pred<0>{}, pred<1>{}, pred<2>{}, pred<3>{}, yes{})
MI(1, pred<0>{}, yes{})
MI(0, yes{})
MI(mid, pred<0>{}, no{}, pred<2>{}, yes{}, pred<4>{}, yes{})
MI(no, no{}, pred<1>{}, yes{})

// What is handed over by name stays as it is: states, stores, paths, handlers.
WIT void wit_own_when(u64 a, u64 b) { own f(a); auto w = nbdl::match_when<V>(f); w(V(b)); evt_out(f.v.h); w(V(b)); nbdl::match_when<V>(f)(V(b)); evt_out(f.v.h); }
WIT void wit_own_whenk(cell& s, u64 a) { own f(a); nbdl::match_when<V>(s, f); evt_out(f.v.h); nbdl::match_when<W>(s, K(1), f); evt_out(f.v.h); }
WIT void wit_own_table(u64 a, u64 b)
{ auto m = hana::make_map(hana::make_pair(hana::type_c<V>, own(a))); own o(a); auto t = nbdl::mapped_overload(m, o); t(V(b)); t(W(b)); evt_out(m[hana::type_c<V>].v.h); evt_out(o.v.h); t(V(b)); t(W(b)); }
WIT void wit_own_path(outer& e, u64 a) { own f(a); nbdl::match_path(e, hana::make_tuple(x_, p_), f); evt_out(f.v.h); nbdl::match_path(e, hana::make_tuple(y_), f); evt_out(f.v.h); nbdl::match_path(e.y, hana::make_tuple(), f); evt_out(f.v.h); }
WIT void wit_own_match(cell& s, u64 a) { own f(a); nbdl::match(s, f); evt_out(f.v.h); nbdl::match(s, K(1), f); evt_out(f.v.h); }
template <int i> struct vpred { bool operator()(V const& v) const { return evt_pred<i>(v.h); } };
struct vyes { constexpr hana::true_ operator()(V const&) const { return {}; } };
WIT void wit_own_if(u64 a) { V v(a); nbdl::detail::match_if(mpdef::make_list(vpred<0>{}, vpred<1>{}, vyes{}), v); evt_out(v.h); }
WIT void wit_own_ifp(u64 a) { V v(a); nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(mpdef::make_list(vpred<0>{}, vpred<1>{}, vyes{})), [](auto) { }), v); evt_out(v.h); }
struct source { V v; operator V() const& { return V(v.h); } operator V() && { return V(std::move(v)); } };
WIT void wit_own_alias(u64 a, u64 b)
{ source x{V(a)}; valias s{V(b)}; s = x; evt_out(x.v.h); evt_out(s.nbdl_get_strong_alias_value().h); V y(a); valias t{y}; evt_out(y.h); evt_out(t.nbdl_get_strong_alias_value().h);
  source const c{V(a)}; valias u{V(b)}; u = c; evt_out(u.nbdl_get_strong_alias_value().h); calias d{y}; evt_out(y.h); evt_out(d.nbdl_get_context_alias_value().v.h); falias f{y}; evt_out(y.h); evt_out(f.nbdl_get_context_alias_value().v.h);
  valias r{V(b)}; r = source{V(a)}; evt_out(r.nbdl_get_strong_alias_value().h); }
// what is given away arrives
WIT void wit_give_get(u64 a, u64 b, u64 c) { see{}(V(nbdl::get(outer{{V(a), W(b)}, V(c), {V(a), W(b)}}, y_))); evt_out(c); }
WIT void wit_give_path(u64 a, u64 b, u64 c) { nbdl::match_path(outer{{V(a), W(b)}, V(c), {V(a), W(b)}}, hana::make_tuple(x_, q_), see{}); evt_out(b); }
WIT void wit_give_tuple(u64 a, u64 b, u64 c) { see{}(W(nbdl::get(hana::make_tuple(V(a), W(b), K(c)), hana::type_c<W>))); evt_out(b); }
WIT void wit_give_match(u64 a) { nbdl::match(cell{V(a)}, see{}); evt_out(a); }
WIT void wit_give_alias(u64 a) { nbdl::match(alias{V(a)}, see{}); evt_out(a); }
