// Composed stores and actions.
#include "wit.hpp"
#include <nbdl/variant.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <functional>

namespace wit
{
  namespace message = nbdl::message;
  // kinds of opaque stores: base (keyed), cell (read without key), network (receives messages)
  struct base_tag { }; struct cell_tag { }; struct net_tag { }; struct state_tag { };
  struct base { using hana_tag = base_tag; u64 h; };
  template <int i> struct cell { using hana_tag = cell_tag; u64 h; };
  struct net { using hana_tag = net_tag; u64 h; };
  struct state { using hana_tag = state_tag; u64 h; };
  using A = tval<1>; using B = tval<2>; using Z = tval<9>;

  template <bool is_const, int key> void evt_base_match(u64 s, u64 k) noexcept;
  template <bool is_const> void evt_cell_match(u64 s) noexcept;
  template <int key> bool evt_base_action(u64 s, u64 a) noexcept;
  bool evt_cell_action(u64 s, u64 a) noexcept;
  template <int kind> bool evt_net_message(u64 s, u64 a) noexcept;
  template <int act, bool is_const> void evt_call(u64 action, u64 value) noexcept;
  template <int kind, bool is_const> void evt_seen(u64) noexcept;
  template <bool v> void evt_static() noexcept;
  void evt_result(bool) noexcept;
  template <int slot> void evt_slot(u64) noexcept;

  template <int i> struct key { u64 h; };
  template <typename T> constexpr int key_no = -1;
  template <int i> constexpr int key_no<key<i>> = i;
  template <typename T> using plain = std::remove_cv_t<std::remove_reference_t<T>>;
  template <typename T> constexpr bool is_c = std::is_const_v<std::remove_reference_t<T>>;

  // what an action does to the base store: a payload
  struct act { u64 h; };
  // an action that is a function of the value
  template <int i> struct fun { u64 h; template <typename T> void operator()(T& t) const { evt_call<i, is_c<T&>>(h, t.h); t.h = h; } };
}
namespace wit
{
  template <int n> struct heard_tag { };
  template <int n> struct heard { using hana_tag = heard_tag<n>; u64 h; };
}
namespace nbdl
{
  template <int n> struct apply_foreign_message_impl<wit::heard_tag<n>>
  { template <typename S, typename M, typename F> static constexpr void apply(S&& s, M&& m, F&& f) { wit::evt_call<n, false>(m.h, s.h); for (int i = 0; i < n; ++i) f(m); } };
  template <> struct match_impl<wit::base_tag>
  { template <typename S, typename K, typename Fn> static constexpr void apply(S&& s, K&& k, Fn&& fn)
    { wit::evt_base_match<wit::is_c<S>, wit::key_no<wit::plain<K>>>(s.h, k.h); std::forward<Fn>(fn)(wit::Z(s.h)); } };
  template <> struct match_impl<wit::cell_tag>
  { template <typename S, typename Fn> static constexpr void apply(S&& s, Fn&& fn)
    { wit::evt_cell_match<wit::is_c<S>>(s.h); std::forward<Fn>(fn)(wit::A(s.h)); } };
  template <> struct apply_action_impl<wit::base_tag>
  { template <typename S, typename Ac> static bool apply(S& s, Ac&& a)
    { if constexpr (requires { a.action; }) return wit::evt_base_action<1>(s.h, a.action.h); else return wit::evt_base_action<0>(s.h, a.h); } };
  template <> struct apply_action_impl<wit::cell_tag>
  { template <typename S, typename Ac> static bool apply(S& s, Ac&& a) { return wit::evt_cell_action(s.h, a.h); } };
  template <> struct apply_message_impl<wit::net_tag>
  { template <typename S, typename M> static bool apply(S&& s, M&& m)
    { if constexpr (requires { m.h; }) return wit::evt_net_message<0>(s.h, m.h); else return wit::evt_net_message<1>(s.h, message::get_payload(m).h); } };
  template <> struct get_impl<wit::state_tag>
  { template <typename S> static constexpr decltype(auto) apply(S&& s) { return (s.h); } };
}
namespace wit
{
  struct see
  {
    template <typename T> void operator()(T&& t) const
    {
      using D = plain<T>;
      constexpr int k = std::is_same_v<D, A> ? 1 : std::is_same_v<D, B> ? 2 : std::is_same_v<D, Z> ? 9 : std::is_same_v<D, nbdl::nothing> ? 0 :
        std::is_same_v<D, u64> ? 20 : std::is_same_v<D, net> ? 21 : std::is_same_v<D, std::reference_wrapper<A>> ? 22 : 99;
      if constexpr (k == 20) evt_seen<k, is_c<T>>(t);
      else if constexpr (k == 22) evt_seen<k, is_c<T>>(t.get().h);
      else if constexpr (requires { t.h; }) evt_seen<k, is_c<T>>(t.h);
      else evt_seen<k, is_c<T>>(0);
    }
  };
  template <typename R> void result(R r)
  {
    if constexpr (std::is_same_v<R, bool>) evt_result(r);
    else evt_static<R::value>();
  }

  // key 1: plain value, key 2: variant (a store), key 3: a store read without key, key 4: reference to a value; key 1 composed twice
  using O = nbdl::optional<B>;
  inline auto mk(u64 b, u64 v1, u64 v2, u64 v3, A& v4)
  {
    return nbdl::store_compose(key<1>{}, A(v1),
           nbdl::store_compose(key<2>{}, O(B(v2)),
           nbdl::store_compose(key<3>{}, cell<3>{v3},
           nbdl::store_compose(key<4>{}, std::ref(v4),
           nbdl::store_compose(key<1>{}, Z(77),
             base{b})))));
  }
  template <typename S> void dump(S& s, A& v4)
  {
    evt_slot<1>(s.right.h);
    u64 h = 0;
    if (auto* p = std::get_if<1>(&s.left.right.value_)) h = p->h;
    evt_slot<2>(h);
    evt_slot<3>(s.left.left.right.h);
    evt_slot<4>(v4.h);
    evt_slot<5>(s.left.left.left.left.right.h);
    evt_slot<6>(s.left.left.left.left.left.h);
    evt_slot<7>(u64(&s.left.left.left.right.get() == &v4));
  }
#define ARGS u64 b, u64 v1, u64 v2, u64 v3, u64 v4, u64 k, u64 a
#define LOOK(i) \
  WIT void wit_look_##i(ARGS) { A r(v4); auto s = mk(b, v1, v2, v3, r); nbdl::match(s, key<i>{k}, see{}); dump(s, r); } \
  WIT void wit_clook_##i(ARGS) { A r(v4); auto const s = mk(b, v1, v2, v3, r); nbdl::match(s, key<i>{k}, see{}); dump(s, r); } \
  WIT void wit_klook_##i(ARGS) { A r(v4); auto const s = mk(b, v1, v2, v3, r); key<i> const kk{k}; nbdl::match(s, kk, see{}); dump(s, r); }
  LOOK(1) LOOK(2) LOOK(3) LOOK(4) LOOK(5)
#define DO(NAME, EXPR) \
  WIT void wit_do_##NAME(ARGS) { A r(v4); auto s = mk(b, v1, v2, v3, r); result(nbdl::apply_action(s, EXPR)); dump(s, r); } \
  WIT void wit_doL_##NAME(ARGS) { A r(v4); auto s = mk(b, v1, v2, v3, r); auto const m = EXPR; result(nbdl::apply_action(s, m)); dump(s, r); }
  DO(base, act{a})
  DO(set1, nbdl::store_composite_action(key<1>{}, A(a)))
  DO(fun1, nbdl::store_composite_action(key<1>{}, fun<1>{a}))
  DO(set2, nbdl::store_composite_action(key<2>{}, B(a)))
  DO(act3, nbdl::store_composite_action(key<3>{}, act{a}))
  DO(fun4, nbdl::store_composite_action(key<4>{}, fun<4>{a}))
  DO(set4, nbdl::store_composite_action(key<4>{}, A(a)))
  DO(none, nbdl::store_composite_action(key<5>{}, act{a}))
  // composing copies lvalues and leaves them as they are
#define COMPOSE(NAME, V, S) \
  WIT void wit_compose_##NAME(u64 b, u64 v1) { B s(b); A v(v1); auto const& cv = v; auto const& cs = s; (void)cv; (void)cs; \
    auto c = nbdl::store_compose(key<1>{}, V, S); evt_slot<0>(c.left.h); evt_slot<1>(c.right.h); evt_slot<2>(s.h); evt_slot<3>(v.h); }
  COMPOSE(cc, cv, cs) COMPOSE(cl, cv, s) COMPOSE(lc, v, cs) COMPOSE(ll, v, s) COMPOSE(lr, v, B(b)) COMPOSE(rl, A(v1), s)
  WIT void wit_wrap_c(u64 a) { A v(a); auto const& cv = v; auto c = nbdl::store_composite_action(key<1>{}, cv); evt_slot<0>(c.action.h); evt_slot<1>(v.h); }
  WIT void wit_wrap_l(u64 a) { A v(a); auto c = nbdl::store_composite_action(key<1>{}, v); evt_slot<0>(c.action.h); evt_slot<1>(v.h); }

  // actions on plain values
  WIT void wit_assign(u64 v, u64 a) { A s(v); A x(a); A const& cx = x; result(nbdl::apply_action(s, cx)); evt_slot<0>(s.h); evt_slot<1>(x.h); }
  // can be assigned and called: assigned
  struct either { u64 h; operator A() const { return A(h); } template <typename T> void operator()(T& t) const { evt_call<9, is_c<T&>>(h, t.h); } };
  WIT void wit_either(u64 v, u64 a) { A s(v); either const x{a}; result(nbdl::apply_action(s, x)); evt_slot<0>(s.h); }
  WIT void wit_eitherm(u64 v, u64 a) { A s(v); result(nbdl::apply_action(s, either{a})); evt_slot<0>(s.h); }
  // a mutable action is left as it is
  WIT void wit_assignl(u64 v, u64 a) { A s(v); A x(a); result(nbdl::apply_action(s, x)); evt_slot<0>(s.h); evt_slot<1>(x.h); }
  WIT void wit_assignm(u64 v, u64 a) { A s(v); result(nbdl::apply_action(s, A(a))); evt_slot<0>(s.h); }
  WIT void wit_fun(u64 v, u64 a) { A s(v); result(nbdl::apply_action(s, fun<1>{a})); evt_slot<0>(s.h); }
  WIT void wit_funL(u64 v, u64 a) { A s(v); fun<1> const f{a}; result(nbdl::apply_action(s, f)); evt_slot<0>(s.h); }
  WIT void wit_ref(u64 v, u64 a) { A s(v); auto r = std::ref(s); result(nbdl::apply_action(r, A(a))); evt_slot<0>(s.h); }
  WIT void wit_reffun(u64 v, u64 a) { A s(v); auto r = std::ref(s); result(nbdl::apply_action(r, fun<1>{a})); evt_slot<0>(s.h); }
  WIT void wit_refstore(u64 v, u64 a) { cell<1> s{v}; auto r = std::ref(s); result(nbdl::apply_action(r, act{a})); evt_slot<0>(s.h); }
  WIT void wit_net(u64 v, u64 a) { net s{v}; result(nbdl::apply_action(s, act{a})); evt_slot<0>(s.h); }
  WIT void wit_refnet(u64 v, u64 a) { net s{v}; auto r = std::ref(s); result(nbdl::apply_action(r, act{a})); evt_slot<0>(s.h); }

  // the value itself is acted upon
  struct where { A const* p; void operator()(A& x) const { evt_slot<5>(&x == p); } };
  WIT void wit_where(u64 v) { A s(v); result(nbdl::apply_action(s, where{&s})); evt_slot<0>(s.h); }
  WIT void wit_refwhere(u64 v) { A s(v); auto r = std::ref(s); result(nbdl::apply_action(r, where{&s})); evt_slot<0>(s.h); }
  WIT void wit_keywhere(u64 v) { auto c = nbdl::store_compose(key<1>{}, A(v), cell<1>{v}); result(nbdl::apply_action(c, nbdl::store_composite_action(key<1>{}, where{&c.right}))); evt_slot<0>(c.right.h); }
  WIT void wit_keyrefwhere(u64 v) { A s(v); auto c = nbdl::store_compose(key<1>{}, std::ref(s), cell<1>{v}); result(nbdl::apply_action(c, nbdl::store_composite_action(key<1>{}, where{&s}))); evt_slot<0>(s.h); }

  // a store that only listens says by its callback that it changed
#define HEARD(N) WIT void wit_heard_##N(u64 v, u64 a) { heard<N> s{v}; act const m{a}; result(nbdl::apply_message(s, m)); evt_slot<0>(s.h); }
  HEARD(0) HEARD(1) HEARD(2) HEARD(3)

  // stores of a context that are plain values, cells, states or network stores
  template <typename S> nbdl::context_store_t<S> held(u64 v) { nbdl::context_store_t<S> c; c.store.h = v; return c; }
  struct dA : A { using A::operator=; dA() : A(0) { } };
  using path = hana::tuple<val<11>, val<12>>; using uid = tval<100>;
#define MSG(T, S, NAME, EXPR) \
  WIT void wit_##T##_##NAME(u64 v, u64 a, u64 p, u64 q, u64 u) { auto c = held<S>(v); path x(val<11>{p}, val<12>{q}); (void)x; auto const m = EXPR; result(nbdl::apply_message(c, m)); evt_slot<0>(c.store.h); } \
  WIT void wit_R##T##_##NAME(u64 v, u64 a, u64 p, u64 q, u64 u) { auto c = held<S>(v); path x(val<11>{p}, val<12>{q}); (void)x; result(nbdl::apply_message(c, EXPR)); evt_slot<0>(c.store.h); }
#define MSGS(T, S, PAY) \
  MSG(T, S, uc, message::make_upstream_create(x, uid(u), PAY)) MSG(T, S, ur, message::make_upstream_read(x, uid(u))) \
  MSG(T, S, uu, message::make_upstream_update(x, uid(u), PAY)) MSG(T, S, ud, message::make_upstream_delete(x, uid(u))) \
  MSG(T, S, dc, message::make_downstream_create(x, uid(u), PAY, true)) MSG(T, S, dr, message::make_downstream_read(x, uid(u), PAY)) \
  MSG(T, S, du, message::make_downstream_update(x, uid(u), PAY, true)) MSG(T, S, dd, message::make_downstream_delete(x, uid(u), true)) \
  MSG(T, S, dq, message::make_downstream_update(x, uid(u), PAY, false))
  MSGS(plain, dA, A(a))
  MSGS(fun, dA, fun<1>{a})
  MSGS(cell, cell<1>, act{a})
  MSGS(net, net, act{a})
#define SEE(T, S) \
  WIT void wit_see_##T(u64 v) { auto c = held<S>(v); nbdl::match(c, val<11>{3}, see{}); evt_slot<0>(c.store.h); } \
  WIT void wit_csee_##T(u64 v) { auto const c = held<S>(v); nbdl::match(c, val<11>{3}, see{}); evt_slot<0>(c.store.h); }
  SEE(cell, cell<1>) SEE(net, net)
#define GET(T, S) \
  WIT void wit_get_##T(u64 v) { auto c = held<S>(v); static_assert(std::is_lvalue_reference_v<decltype(nbdl::get(c, val<11>{3}))>, "[C16] getting does not copy"); see{}(nbdl::get(c, val<11>{3})); } \
  WIT void wit_cget_##T(u64 v) { auto const c = held<S>(v); static_assert(std::is_lvalue_reference_v<decltype(nbdl::get(c, val<11>{3}))>, "[C16] getting does not copy"); see{}(nbdl::get(c, val<11>{3})); }
  GET(state, state) GET(net, net)
}
