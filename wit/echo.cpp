// The echo producer: every message sent to it comes back downstream through its context.
#include "wit.hpp"
#include <nbdl/make_context.hpp>
#include <nbdl/message.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/message.hpp>
#include <nbdl/actor_type.hpp>

namespace wit
{
  namespace message = nbdl::message;
  using k1 = tval<1>;
  struct k2 { unsigned value; };                 // a key around a number
  struct k3 { u64 value; explicit k3(u64 v) : value(v) { } explicit k3(tval<100> const& u) : value(u.h) { } };
  struct ek { };                                 // a key without content
  using uid = tval<100>; using pay = tval<200>; using pay2 = tval<201>; using priv = tval<202>;
  constexpr u64 absent = ~0ul;
  template <int chan, int act, int path> void evt_told(u64 ctx, u64 parent, u64 key, u64 uid, u64 payload, u64 confirmed) noexcept;
  template <int n> void evt_r_next() noexcept;
  struct ctx { using hana_tag = ctx; u64 h; };

  template <typename P> constexpr int path_of = 0;
  template <> constexpr int path_of<hana::tuple<k1, k2>> = 2;
  template <> constexpr int path_of<hana::tuple<k1, k3>> = 3;
  template <> constexpr int path_of<hana::tuple<k1, u64>> = 4;
  template <> constexpr int path_of<hana::tuple<k1, ek>> = 5;
  template <> constexpr int path_of<hana::tuple<k2>> = 6;
  template <> constexpr int path_of<hana::tuple<k1, int>> = 7;
  template <typename T> u64 num(T const& t)
  { if constexpr (requires { t.h; }) return t.h; else if constexpr (requires { t.value; }) return t.value; else if constexpr (std::is_empty_v<T>) return 0; else return u64(t); }
  template <typename M> void tell(u64 c, M const& m)
  {
    auto const p = [&] { if constexpr (message::is_path_normalizable<M>) return message::get_normalized_path(m); else return message::get_path(m); }();
    u64 u = absent, v = absent;
    if constexpr (message::has_uid<M>) u = message::get_uid(m).h;
    if constexpr (message::has_payload<M>) v = num(message::get_payload(m));
    u64 conf = absent;
    if constexpr (message::has_is_confirmed<M>) conf = message::is_confirmed(m);
    evt_told<message::is_downstream<M> ? 1 : 0, (message::is_create<M> ? 1 : 0) + (message::is_read<M> ? 2 : 0) + (message::is_update<M> ? 4 : 0) + (message::is_delete<M> ? 8 : 0),
      path_of<std::remove_cvref_t<decltype(p)>>>(c, num(hana::front(p)), num(hana::back(p)), u, v, conf);
  }
}
namespace nbdl
{
  template <> struct apply_message_impl<wit::ctx>
  { template <typename C, typename M> static void apply(C const& c, M const& m) { wit::tell(c.h, m); } };
}
namespace wit
{
  using producer = nbdl::echo_producer_impl<ctx>;
  struct full { u64 h; };
  inline producer make(u64 c) { return producer(nbdl::actor_initializer<ctx, nbdl::echo_producer>{ctx{c}, {}}); }
  template <typename M> void send(producer const& p, M&& m) { nbdl::send_upstream_message(p, static_cast<M&&>(m)); }
  template <typename K> auto cp(u64 a) { return message::make_create_path<K>(hana::make_tuple(k1(a))); }
  template <typename K> auto fp(u64 a, K k) { return hana::tuple<k1, K>(k1(a), k); }
}
using namespace wit;

#define ONE(N, EXPR) WIT void wit_##N(u64 c, u64 a, u64 b, u64 u, u64 p, u64 q) { auto const e = make(c); send(e, EXPR); }
ONE(update_u, message::make_upstream_update(fp<k3>(a, k3(b)), uid(u), pay(p)))
ONE(update_n, message::make_upstream_update(fp<k3>(a, k3(b)), message::no_uid, pay(p)))
ONE(delete_u, message::make_upstream_delete(fp<k3>(a, k3(b)), uid(u)))
ONE(delete_n, message::make_upstream_delete(fp<k3>(a, k3(b)), message::no_uid))
ONE(create_full, message::make_upstream_create(fp<k3>(a, k3(b)), uid(u), pay(p)))
ONE(create_fulln, message::make_upstream_create(fp<k3>(a, k3(b)), message::no_uid, pay(p)))
ONE(create_fullq, message::make_upstream_create(fp<k3>(a, k3(b)), uid(u), pay(p), priv(q)))
ONE(create_uid, message::make_upstream_create(cp<k3>(a), uid(u), pay(p)))
ONE(create_uidq, message::make_upstream_create(cp<k3>(a), uid(u), pay(p), priv(q)))
ONE(create_empty, message::make_upstream_create(fp<ek>(a, ek{}), message::no_uid, pay(p)))

// creates that are to be given keys, one after another
#define M2 message::make_upstream_create(cp<k2>(a), message::no_uid, pay(p))
#define M2B message::make_upstream_create(cp<k2>(b), message::no_uid, pay(p))
#define M2U message::make_upstream_create(cp<k2>(a), uid(u), pay(p))
#define M2Q message::make_upstream_create(cp<k2>(a), message::no_uid, pay(p), priv(q))
#define M2P message::make_upstream_create(cp<k2>(a), message::no_uid, pay2(p))
#define M2L ([&] { auto m = message::make_upstream_create(cp<k2>(a), message::no_uid, pay(p)); return m; }())
#define M3 message::make_upstream_create(cp<k3>(a), message::no_uid, pay(p))
#define M4 message::make_upstream_create(cp<u64>(a), message::no_uid, pay(p))
#define M4Q message::make_upstream_create(cp<u64>(a), message::no_uid, pay(p), priv(q))
#define M7 message::make_upstream_create(cp<int>(a), message::no_uid, pay(p))
#define KEYS(N, ...) WIT void wit_keys_##N(u64 c, u64 a, u64 b, u64 u, u64 p, u64 q) { auto const e = make(c); [&](auto const&... m) { (send(e, m), ...); }(__VA_ARGS__); }
KEYS(same, M2, M2, M2)
KEYS(parents, M2, M2B, M2)
KEYS(uids, M2, M2U, M2, M2U)
KEYS(private, M2, M2Q, M2Q, M2)
KEYS(payloads, M2P, M2, M2P)
KEYS(number, M4, M4, M4Q)
KEYS(wide, M3, M3)
KEYS(int, M7, M7)
// two producers
WIT void wit_keys_two(u64 c, u64 a, u64 b, u64 u, u64 p, u64 q) { auto const e = make(c), f = make(c); send(e, M2); send(f, M2); send(e, M2); }
