// Messages: construction, accessors, conversion of upstream messages into downstream replies.
#include "wit.hpp"
#include <nbdl/message.hpp>
#include <nbdl/bind_sequence.hpp>

namespace wit
{
  namespace message = nbdl::message;
  using k1_t = tval<1>;
  struct k2_t : tval<2> { using tval<2>::tval; k2_t(tval<100> const& u) : tval<2>(u.h) { } k2_t(tval<100>&& u) : tval<2>(u.h) { u.h = gone; } };
  struct ek_t { };                       // a key without content
  using uid = tval<100>; using pay = tval<200>; using priv = tval<201>;
  using path = hana::tuple<k1_t, k2_t>;
  using cpath = message::create_path<k2_t, hana::tuple<k1_t>>;
  using cepath = message::create_path<ek_t, hana::tuple<k1_t>>;

  constexpr u64 absent = ~0ul;
  // chan: 0 up 1 down; act: 0..3; uid: has_uid; conf; pk: path kind 0 full, 1 create path
  template <int chan, int act, bool uid, bool conf, int pk>
  void evt_msg(u64 k1, u64 k2, u64 u, u64 p, u64 c, u64 pv) noexcept;
  template <int pk> void evt_norm(u64 k1, u64 k2) noexcept;
  template <int kind> void evt_field(u64 v) noexcept;    // kind: 0 key1 1 key2 2 uid 3 payload 4 private 5 bool
  void evt_end() noexcept;
  void evt_left() noexcept;

  template <typename M> constexpr int chan_of = (message::is_upstream<M> ? 1 : 0) + (message::is_downstream<M> ? 2 : 0);
  template <typename M> constexpr int act_of = (message::is_create<M> ? 1 : 0) + (message::is_read<M> ? 2 : 0)
    + (message::is_update<M> ? 4 : 0) + (message::is_delete<M> ? 8 : 0);

  template <typename M> u64 uid_of(M const& m)
  { if constexpr (message::has_uid<M>) return message::get_uid(m).h; else return absent; }
  template <typename M> u64 pay_of(M const& m)
  { if constexpr (message::has_payload<M>) return message::get_payload(m).h; else return absent; }
  template <typename T> u64 as_conf(T c)
  { if constexpr (std::is_same_v<T, hana::false_>) return absent; else return c ? 1 : 0; }
  template <typename M> u64 priv_of(M const& m)
  { if constexpr (message::has_private_payload<M>) return message::get_private_payload(m).h; else return absent; }
  template <typename P> constexpr int pk_of = 0;
  template <> constexpr int pk_of<cpath> = 1;
  template <> constexpr int pk_of<cepath> = 2;
  inline u64 pk1(path const& p) { return hana::front(p).h; }
  inline u64 pk2(path const& p) { return hana::back(p).h; }
  inline u64 pk1(hana::tuple<k1_t, ek_t> const& p) { return hana::front(p).h; }
  inline u64 pk2(hana::tuple<k1_t, ek_t> const& p) { return absent; }
  inline u64 pk1(cpath const& p) { return hana::front(p.parent_path).h; }
  inline u64 pk2(cpath const& p) { return absent; }
  inline u64 pk1(cepath const& p) { return hana::front(p.parent_path).h; }
  inline u64 pk2(cepath const& p) { return absent; }

  struct field_fn
  {
    template <typename T> void one(T const& t) const
    {
      using namespace hana;
      if constexpr (std::is_same_v<T, k1_t>) evt_field<0>(t.h);
      else if constexpr (std::is_same_v<T, k2_t>) evt_field<1>(t.h);
      else if constexpr (std::is_same_v<T, uid>) evt_field<2>(t.h);
      else if constexpr (std::is_same_v<T, pay>) evt_field<3>(t.h);
      else if constexpr (std::is_same_v<T, priv>) evt_field<4>(t.h);
      else if constexpr (std::is_same_v<T, bool>) evt_field<5>(t);
      else if constexpr (std::is_same_v<T, cpath> || std::is_same_v<T, cepath>) one(t.parent_path);
      else if constexpr (hana::is_a<hana::tuple_tag, T>) hana::for_each(t, *this);
      else if constexpr (!std::is_same_v<T, message::no_impl> && !std::is_same_v<T, ek_t>) evt_field<99>(0);
    }
    template <typename T> void operator()(T const& t) const { one(t); }
  };

  // everything that can be learned about a message
  template <typename M> void tell(M const& m)
  {
    using P = std::decay_t<decltype(message::get_path(m))>;
    evt_msg<chan_of<M>, act_of<M>, message::has_uid<M>, message::has_is_confirmed<M>, pk_of<P>>(
      pk1(message::get_path(m)), pk2(message::get_path(m)), uid_of(m), pay_of(m), as_conf(message::is_confirmed(m)), priv_of(m));
    // the parts that are serialized
    nbdl::bind_sequence(m, [](auto const&... x) { field_fn f; (f(x), ...); });
    evt_end();
    if constexpr (message::is_path_normalizable<M>)
    {
      auto n = message::get_normalized_path(m);
      evt_norm<0>(pk1(n), pk2(n));
    }
  }
  // moved-from access keeps the content as well
  template <typename M> void tell_moved(M m)
  {
    using P = std::decay_t<decltype(message::get_path(m))>;
    evt_msg<chan_of<M>, act_of<M>, message::has_uid<M>, message::has_is_confirmed<M>, pk_of<P>>(
      pk1(message::get_path(M(m))), pk2(message::get_path(M(m))), [&] { if constexpr (message::has_uid<M>) return message::get_uid(M(m)).h; else return absent; }(),
      [&] { if constexpr (message::has_payload<M>) return message::get_payload(M(m)).h; else return absent; }(), absent, absent);
    if constexpr (message::is_path_normalizable<M>)
    {
      auto n = message::get_normalized_path(M(m));
      evt_norm<1>(pk1(n), pk2(n));
    }
  }

  // reading the parts of a message in place
  template <typename T> void keep(T const&) { }
  template <typename M> void read_once(M& m)
  {
    keep(message::get_path(m)); keep(message::is_confirmed(m));
    if constexpr (message::has_uid<M>) keep(message::get_uid(m));
    if constexpr (message::has_payload<M>) keep(message::get_payload(m));
    if constexpr (message::has_private_payload<M>) keep(message::get_private_payload(m));
    if constexpr (message::is_path_normalizable<M>) keep(message::get_normalized_path(m));
    nbdl::bind_sequence(m, [](auto&...) { });
  }

  inline auto mkp(u64 a, u64 b) { return path(k1_t{a}, k2_t(b)); }
  inline auto mkc(u64 a) { return message::make_create_path<k2_t>(hana::make_tuple(k1_t{a})); }
  inline auto mke(u64 a) { return message::make_create_path<ek_t>(hana::make_tuple(k1_t{a})); }

#define MSG(NAME, EXPR) \
  WIT void wit_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { auto const m = EXPR; tell(m); } \
  WIT void wit_mv_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { tell_moved(EXPR); } \
  WIT void wit_rd_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { auto m = EXPR; read_once(m); tell(m); }

  MSG(uc_uqp, message::make_upstream_create(mkp(a, b), uid{u}, pay{p}, priv{q}))
  MSG(uc_up, message::make_upstream_create(mkp(a, b), uid{u}, pay{p}))
  MSG(uc_nq, message::make_upstream_create(mkp(a, b), message::no_uid, pay{p}, priv{q}))
  MSG(uc_n, message::make_upstream_create(mkp(a, b), message::no_uid, pay{p}))
  MSG(ucc_uqp, message::make_upstream_create(mkc(a), uid{u}, pay{p}, priv{q}))
  MSG(ucc_up, message::make_upstream_create(mkc(a), uid{u}, pay{p}))
  MSG(ucc_n, message::make_upstream_create(mkc(a), message::no_uid, pay{p}))
  MSG(uce_n, message::make_upstream_create(mke(a), message::no_uid, pay{p}))
  MSG(ur_u, message::make_upstream_read(mkp(a, b), uid{u}))
  MSG(ur_n, message::make_upstream_read(mkp(a, b)))
  MSG(ur_n2, message::make_upstream_read(mkp(a, b), message::no_uid))
  MSG(uu_u, message::make_upstream_update(mkp(a, b), uid{u}, pay{p}))
  MSG(uu_n, message::make_upstream_update(mkp(a, b), message::no_uid, pay{p}))
  MSG(ud_u, message::make_upstream_delete(mkp(a, b), uid{u}))
  MSG(ud_n, message::make_upstream_delete(mkp(a, b), message::no_uid))
  MSG(dc_uc, message::make_downstream_create(mkp(a, b), uid{u}, pay{p}, c))
  MSG(dc_u, message::make_downstream_create(mkp(a, b), uid{u}, pay{p}, message::no_is_confirmed))
  MSG(dc_nc, message::make_downstream_create(mkp(a, b), message::no_uid, pay{p}, c))
  MSG(dcc_uc, message::make_downstream_create(mkc(a), uid{u}, pay{p}, c))
  MSG(dr_u, message::make_downstream_read(mkp(a, b), uid{u}, pay{p}))
  MSG(dr_n, message::make_downstream_read(mkp(a, b), message::no_uid, pay{p}))
  MSG(du_uc, message::make_downstream_update(mkp(a, b), uid{u}, pay{p}, c))
  MSG(du_u, message::make_downstream_update(mkp(a, b), uid{u}, pay{p}, message::no_is_confirmed))
  MSG(du_nc, message::make_downstream_update(mkp(a, b), message::no_uid, pay{p}, c))
  MSG(dd_uc, message::make_downstream_delete(mkp(a, b), uid{u}, c))
  MSG(dd_u, message::make_downstream_delete(mkp(a, b), uid{u}, message::no_is_confirmed))
  MSG(dd_nc, message::make_downstream_delete(mkp(a, b), message::no_uid, c))

  // ---- made of things left in place: they stay as they are ------------------
  template <typename Make, typename ...X> void leave(Make const& make, X ...x)
  { tell(make(x...)); evt_left(); field_fn f; (f(x), ...); }
#define LV(NAME, MAKE, ...) \
  WIT void wit_lv_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { leave(message::make_##MAKE, __VA_ARGS__); }
  LV(uc_uqp, upstream_create, mkp(a, b), uid{u}, pay{p}, priv{q})
  LV(uc_up, upstream_create, mkp(a, b), uid{u}, pay{p})
  LV(uc_nq, upstream_create, mkp(a, b), message::no_uid, pay{p}, priv{q})
  LV(uc_n, upstream_create, mkp(a, b), message::no_uid, pay{p})
  LV(ucc_uqp, upstream_create, mkc(a), uid{u}, pay{p}, priv{q})
  LV(ucc_n, upstream_create, mkc(a), message::no_uid, pay{p})
  LV(ur_u, upstream_read, mkp(a, b), uid{u})
  LV(ur_n, upstream_read, mkp(a, b))
  LV(uu_u, upstream_update, mkp(a, b), uid{u}, pay{p})
  LV(uu_n, upstream_update, mkp(a, b), message::no_uid, pay{p})
  LV(ud_u, upstream_delete, mkp(a, b), uid{u})
  LV(dc_uc, downstream_create, mkp(a, b), uid{u}, pay{p}, c)
  LV(dc_u, downstream_create, mkp(a, b), uid{u}, pay{p}, message::no_is_confirmed)
  LV(dcc_uc, downstream_create, mkc(a), uid{u}, pay{p}, c)
  LV(dr_u, downstream_read, mkp(a, b), uid{u}, pay{p})
  LV(dr_n, downstream_read, mkp(a, b), message::no_uid, pay{p})
  LV(du_uc, downstream_update, mkp(a, b), uid{u}, pay{p}, c)
  LV(du_nc, downstream_update, mkp(a, b), message::no_uid, pay{p}, c)
  LV(dd_uc, downstream_delete, mkp(a, b), uid{u}, c)
  LV(dd_u, downstream_delete, mkp(a, b), uid{u}, message::no_is_confirmed)

  // ---- conversions --------------------------------------------------------
#define CONV(NAME, UP, CONVERT) \
  WIT void wit_cv_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { auto const m = UP; auto const d = CONVERT; tell(d); } \
  WIT void wit_cvm_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { auto m_ = UP; auto m = [&]() -> decltype(auto) { return std::move(m_); }; auto const d = [&](auto&& m) { return CONVERT; }(m()); tell(d); } \
  WIT void wit_cvl_##NAME(u64 a, u64 b, u64 u, u64 p, u64 q, bool c) { auto m = UP; [&](auto& m) { auto const d = CONVERT; }(m); tell(m); }

#define CONV3(NAME, UP) \
  CONV(NAME##_c, UP, message::to_downstream(std::forward<decltype(m)>(m), c)) \
  CONV(NAME##_n, UP, message::to_downstream(std::forward<decltype(m)>(m), message::no_is_confirmed)) \
  CONV(NAME##_t, UP, message::to_downstream_confirmed(std::forward<decltype(m)>(m)))
  CONV3(uc_uqp, message::make_upstream_create(mkp(a, b), uid{u}, pay{p}, priv{q}))
  CONV3(uc_n, message::make_upstream_create(mkp(a, b), message::no_uid, pay{p}))
  CONV3(ucc_uqp, message::make_upstream_create(mkc(a), uid{u}, pay{p}, priv{q}))
  CONV3(uce_n, message::make_upstream_create(mke(a), message::no_uid, pay{p}))
  CONV3(uu_u, message::make_upstream_update(mkp(a, b), uid{u}, pay{p}))
  CONV3(uu_n, message::make_upstream_update(mkp(a, b), message::no_uid, pay{p}))
  CONV3(ud_u, message::make_upstream_delete(mkp(a, b), uid{u}))
  CONV3(ud_n, message::make_upstream_delete(mkp(a, b), message::no_uid))
#define CONVK(NAME, UP) \
  CONV(NAME##_k, UP, message::to_downstream_with_key(std::forward<decltype(m)>(m), k2_t(b))) \
  CONV(NAME##_kt, UP, message::to_downstream_with_key_confirmed(std::forward<decltype(m)>(m), k2_t(b)))
  CONVK(ucc_uqp, message::make_upstream_create(mkc(a), uid{u}, pay{p}, priv{q}))
  CONVK(ucc_u, message::make_upstream_create(mkc(a), uid{u}, pay{p}))
  CONVK(ucc_n, message::make_upstream_create(mkc(a), message::no_uid, pay{p}))
  CONVK(ucc_nq, message::make_upstream_create(mkc(a), message::no_uid, pay{p}, priv{q}))
  CONV(ur_u_r, message::make_upstream_read(mkp(a, b), uid{u}), message::to_downstream_read(std::forward<decltype(m)>(m), pay{p}))
  CONV(ur_n_r, message::make_upstream_read(mkp(a, b)), message::to_downstream_read(std::forward<decltype(m)>(m), pay{p}))
}
