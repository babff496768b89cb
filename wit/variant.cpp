// Variants: visiting, identification, conditional access, equality, binding and optionals, for every alternative.
#include "wit.hpp"
#include <nbdl/variant.hpp>
#include <nbdl/bind_variant.hpp>
#include <nbdl/match.hpp>

namespace wit
{
  using A = tval<1>; using B = tval<2>; using Z = tval<9>;
  // alternatives of a nested variant
  using N = nbdl::detail::variant<nbdl::nothing, tval<3>, tval<4>>;
  struct E { };
  struct inner_tag { };
  // an alternative that is a store with keys
  struct K { using hana_tag = inner_tag; u64 h; };
  struct key { u64 h; };

  // alternatives that are made by default and then filled (binding)
  struct small { bool b; explicit small(bool x) : b(x) { } small() : b() { } };
  template <int i> struct mut { u64 h; mut() : h(0) { } explicit mut(u64 x) : h(x) { } };
}
namespace boost::hana
{
  template <> struct equal_impl<wit::small, wit::small>
  { static constexpr bool apply(wit::small const& a, wit::small const& b) { return a.b == b.b; } };
  template <int i> struct equal_impl<wit::tval<i>, wit::tval<i>>
  { static constexpr bool apply(wit::tval<i> const& a, wit::tval<i> const& b) { return a.h == b.h; } };
}
namespace wit
{
  template <int kind, bool is_const> void evt_seen(u64) noexcept;
  template <int kind, bool is_const> void evt_when(u64) noexcept;
  template <bool is_const> void evt_keyed(u64 store, u64 k) noexcept;
  template <int kind> void evt_is(bool) noexcept;
  template <int kind> void evt_type() noexcept;
  template <int kind> void evt_out(int id, u64 v) noexcept;
  template <int kind> u64 evt_in(int id, u64 v) noexcept;
  void evt_id(int) noexcept;
  void evt_equal(bool) noexcept;
  template <int slot> void evt_state(int kind, u64 v) noexcept;
}
namespace nbdl
{
  template <> struct match_impl<wit::inner_tag>
  {
    template <typename S, typename Fn> static constexpr void apply(S&& s, wit::key const& k, Fn&& fn)
    { wit::evt_keyed<std::is_const_v<std::remove_reference_t<S>>>(s.h, k.h); std::forward<Fn>(fn)(wit::Z(s.h)); }
  };
}
namespace wit
{
  template <typename T> constexpr int kind_of_type =
    std::is_same_v<T, nbdl::unresolved> ? 0 : std::is_same_v<T, A> ? 1 : std::is_same_v<T, B> ? 2 : std::is_same_v<T, E> ? 3 :
    std::is_same_v<T, N> ? 4 : std::is_same_v<T, K> ? 5 : std::is_same_v<T, nbdl::nothing> ? 6 : std::is_same_v<T, tval<3>> ? 7 :
    std::is_same_v<T, tval<4>> ? 8 : std::is_same_v<T, Z> ? 9 : std::is_same_v<T, mut<1>> ? 11 : std::is_same_v<T, mut<2>> ? 12 : -1;
  template <typename T> u64 value_of(T const& t)
  { if constexpr (requires { t.h; }) return t.h; else return 0; }

  template <typename T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;
  struct see
  {
    template <typename T> void operator()(T&& t) const
    { evt_seen<kind_of_type<plain<T>>, std::is_const_v<std::remove_reference_t<T>>>(value_of(t)); }
  };
  struct when
  {
    template <typename T> void operator()(T&& t) const
    { evt_when<kind_of_type<plain<T>>, std::is_const_v<std::remove_reference_t<T>>>(value_of(t)); }
  };

  // a small variant with all alternatives plain and two of them empty
  using V = nbdl::variant<A, B, E>;
  inline V mkV(int k, u64 x)
  { return k == 0 ? V{} : k == 1 ? V(A(x)) : k == 2 ? V(B(x)) : V(E{}); }
  template <int slot> void state(V const& v)
  {
    u64 h = 0;
    if (auto* p = std::get_if<1>(&v.value_)) h = p->h;
    if (auto* p = std::get_if<2>(&v.value_)) h = p->h;
    evt_state<slot>(int(v.value_.index()), h);
  }
#define EACH(M) M(0) M(1) M(2) M(3)
#define LOOK(k) \
  WIT void wit_id_##k(u64 x) { V const v = mkV(k, x); evt_id(v.get_type_id()); } \
  WIT void wit_visit_##k(u64 x) { V const v = mkV(k, x); v.match(see{}); state<0>(v); } \
  WIT void wit_visitm_##k(u64 x) { V v = mkV(k, x); v.match(see{}); state<0>(v); } \
  WIT void wit_match_##k(u64 x) { V const v = mkV(k, x); nbdl::match(v, see{}); state<0>(v); } \
  WIT void wit_matchm_##k(u64 x) { V v = mkV(k, x); nbdl::match(v, see{}); state<0>(v); } \
  WIT void wit_matchr_##k(u64 x) { nbdl::match(mkV(k, x), see{}); } \
  WIT void wit_select_##k(u64 x) { V const v = mkV(k, x); \
    v.match([](nbdl::unresolved const&) { evt_when<0, true>(0); }, [](A const& a) { evt_when<1, true>(a.h); }, [](B const& b) { evt_when<2, true>(b.h); }, \
            see{}); } \
  WIT void wit_selectfn_##k(u64 x) { V v = mkV(k, x); \
    nbdl::match(v, hana::overload_linearly([](nbdl::unresolved) { evt_when<0, true>(0); }, [](A const& a) { evt_when<1, true>(a.h); }, [](B const& b) { evt_when<2, true>(b.h); }, \
            see{})); } \
  WIT void wit_is_##k(u64 x) { V const v = mkV(k, x); evt_is<0>(v.is<nbdl::unresolved>()); evt_is<1>(v.is<A>()); evt_is<2>(v.is<B>()); evt_is<3>(v.is<E>()); } \
  WIT void wit_when_##k##_0(u64 x) { V const v = mkV(k, x); nbdl::match_when<nbdl::unresolved>(v, when{}); state<0>(v); } \
  WIT void wit_when_##k##_1(u64 x) { V v = mkV(k, x); nbdl::match_when<A>(v, when{}); state<0>(v); } \
  WIT void wit_when_##k##_2(u64 x) { V const v = mkV(k, x); nbdl::match_when<B>(v, when{}); state<0>(v); } \
  WIT void wit_when_##k##_3(u64 x) { V v = mkV(k, x); nbdl::match_when<E>(v, when{}); state<0>(v); } \
  WIT void wit_when_##k##_9(u64 x) { V const v = mkV(k, x); nbdl::match_when<Z>(v, when{}); state<0>(v); } \
  WIT void wit_whenk_##k##_0(u64 x, u64 y) { V const v = mkV(k, x); nbdl::match_when<nbdl::unresolved>(v, key{y}, when{}); state<0>(v); } \
  WIT void wit_whenk_##k##_1(u64 x, u64 y) { V v = mkV(k, x); nbdl::match_when<A>(v, key{y}, when{}); state<0>(v); } \
  WIT void wit_whenk_##k##_2(u64 x, u64 y) { V const v = mkV(k, x); nbdl::match_when<B>(v, key{y}, when{}); state<0>(v); } \
  WIT void wit_whenk_##k##_3(u64 x, u64 y) { V v = mkV(k, x); nbdl::match_when<E>(v, key{y}, when{}); state<0>(v); } \
  WIT void wit_whenk_##k##_9(u64 x, u64 y) { V const v = mkV(k, x); nbdl::match_when<Z>(v, key{y}, when{}); state<0>(v); } \
  WIT void wit_copy_##k(u64 x) { V const v = mkV(k, x); V w(v); V y; y = v; state<0>(v); state<1>(w); state<2>(y); } \
  WIT void wit_move_##k(u64 x) { V v = mkV(k, x); V w(std::move(v)); state<1>(w); V y; y = std::move(w); state<2>(y); } \
  WIT void wit_bind_##k(u64 x) { V const v = mkV(k, x); nbdl::bind_variant(v, [](int id, auto const& ...t) { \
    static_assert(sizeof...(t) < 2); if constexpr (sizeof...(t) == 1) (evt_out<kind_of_type<plain<decltype(t)>>>(id, value_of(t)), ...); else evt_out<99>(id, 0); }); state<0>(v); }
  EACH(LOOK)

  WIT void wit_fresh() { V v; state<0>(v); }

  WIT void wit_bytype(int id, u64 x) { V v = mkV(2, x); v.match_by_type(id, [](auto t) { evt_type<kind_of_type<typename decltype(t)::type>>(); }); state<0>(v); }

#define EQ2(j, k) \
  WIT void wit_equal_##j##_##k(u64 x, u64 y) { V const v = mkV(j, x); V const w = mkV(k, y); evt_equal(hana::equal(v, w)); } \
  WIT void wit_nequal_##j##_##k(u64 x, u64 y) { V const v = mkV(j, x); V const w = mkV(k, y); evt_equal(!hana::not_equal(v, w)); }
#define EQ(j) EQ2(j, 0) EQ2(j, 1) EQ2(j, 2) EQ2(j, 3)
  EACH(EQ)

  // equality of values of other sizes and kinds
  using Q = nbdl::variant<bool, unsigned char, small, u64, E>;
#define EQS(T, NAME, MK) \
  WIT void wit_eqs_##NAME(T x, T y) { Q const v{MK(x)}; Q const w{MK(y)}; evt_equal(hana::equal(v, w)); }
  EQS(bool, bool, bool) EQS(unsigned char, char, (unsigned char)) EQS(bool, small, small) EQS(u64, long, u64)

  // nested stores: the reader sees through them
  using W = nbdl::variant<A, N, K>;
  inline W mkW(int k, u64 x)
  { return k == 0 ? W{} : k == 1 ? W(A(x)) : k == 2 ? W(N(tval<3>(x))) : k == 3 ? W(N(tval<4>(x))) : k == 4 ? W(N{}) : W(K{x}); }
#define NEST(k) \
  WIT void wit_nest_##k(u64 x, u64 y) { W const v = mkW(k, x); nbdl::match(v, key{y}, see{}); } \
  WIT void wit_nestm_##k(u64 x, u64 y) { W v = mkW(k, x); nbdl::match(v, key{y}, see{}); }
  NEST(0) NEST(1) NEST(5)
  using X = nbdl::variant<A, N>;
  inline X mkX(int k, u64 x) { return k == 0 ? X{} : k == 1 ? X(A(x)) : k == 2 ? X(N(tval<3>(x))) : k == 3 ? X(N(tval<4>(x))) : X(N{}); }
#define NEST1(k) \
  WIT void wit_deep_##k(u64 x) { X const v = mkX(k, x); nbdl::match(v, see{}); } \
  WIT void wit_deepm_##k(u64 x) { X v = mkX(k, x); nbdl::match(v, see{}); }
  NEST1(0) NEST1(1) NEST1(2) NEST1(3) NEST1(4)

  // binding in: the alternative named by the id is made, filled and held
  using M = nbdl::variant<mut<1>, mut<2>, E>;
  inline M mkM(u64 x) { return M(mut<1>(x)); }
  inline void stateM(M const& v)
  {
    u64 h = 0;
    if (auto* p = std::get_if<1>(&v.value_)) h = p->h;
    if (auto* p = std::get_if<2>(&v.value_)) h = p->h;
    evt_state<0>(int(v.value_.index()), h);
  }
  WIT void wit_in(int id, u64 x) { M v = mkM(x); nbdl::bind_variant(id, v, [](int i, auto& ...t) {
    static_assert(sizeof...(t) < 2);
    if constexpr (sizeof...(t) == 1) ((t.h = evt_in<kind_of_type<plain<decltype(t)>>>(i, t.h)), ...); else evt_in<99>(i, 0); }); stateM(v); }

  // optionals
  template <typename O> void opt(O const& o) { evt_id(o.get_type_id()); evt_is<6>(o.template is<nbdl::nothing>()); evt_is<1>(o.template is<A>()); nbdl::match(o, see{}); }
  WIT void wit_opt(u64 x) { A a(x); opt(nbdl::make_optional(a)); evt_state<0>(1, a.h); }
  WIT void wit_optc(u64 x) { A const a(x); opt(nbdl::make_optional(a)); evt_state<0>(1, a.h); }
  WIT void wit_optr(u64 x) { opt(nbdl::make_optional(A(x))); }
  WIT void wit_optif(u64 x, bool c) { A a(x); opt(nbdl::make_optional_if(c, a)); evt_state<0>(1, a.h); }
  WIT void wit_optifc(u64 x, bool c) { A const a(x); opt(nbdl::make_optional_if(c, a)); evt_state<0>(1, a.h); }
  WIT void wit_optifr(u64 x, bool c) { opt(nbdl::make_optional_if(c, A(x))); }
  template <typename T> void optv(nbdl::optional<T> const& o)
  {
    evt_id(o.get_type_id());
    auto* p = std::get_if<1>(&o.value_);
    if (p) evt_seen<1, true>(u64(*p));
  }
#define OPTV(T, NAME) \
  WIT void wit_optv_##NAME(T x) { optv<T>(nbdl::make_optional(x)); } \
  WIT void wit_optvif_##NAME(T x, bool c) { optv<T>(nbdl::make_optional_if(c, x)); }
  OPTV(bool, bool) OPTV(unsigned char, char) OPTV(u64, long)
  WIT void wit_optnone() { opt(nbdl::optional<A>{}); }

  static_assert(std::is_same_v<nbdl::optional<A>, nbdl::detail::variant<nbdl::nothing, A>>);
}
