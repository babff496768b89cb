// Keyed store: effect of every message on the entry of its path, for every state of that entry.
#include "wit.hpp"
#include <unordered_map>
#include <nbdl/map_store.hpp>

namespace wit
{
  namespace message = nbdl::message;
  template <int i> struct pk { u64 h; };
  using path = hana::tuple<pk<1>, pk<2>>;
  using ent = tval<3>; using uid = tval<100>;
}
namespace boost::hana
{
  template <int i> struct equal_impl<wit::pk<i>, wit::pk<i>>
  { static constexpr bool apply(wit::pk<i> const& a, wit::pk<i> const& b) { return a.h == b.h; } };
  template <int i> struct equal_impl<wit::tval<i>, wit::tval<i>>
  { static constexpr bool apply(wit::tval<i> const& a, wit::tval<i> const& b) { return a.h == b.h; } };
}
namespace wit
{
  template <int slot> void evt_state(bool has, int kind, u64 v) noexcept;
  void evt_changed(bool) noexcept;
  void evt_mixed_up() noexcept;    // does the store take another key for this one
  template <int kind, bool is_const> void evt_seen(u64 v) noexcept;

  // the entity type itself must be storable by default construction nowhere: no default constructor
  template <typename Tag> using store_of = nbdl::basic_map_store<path,
      nbdl::detail::variant<nbdl::unresolved, ent, nbdl::not_found>, nbdl::trigger_read, Tag>;
  using store = nbdl::map_store<path, ent>;
  using bstore = nbdl::basic_map_store<path, nbdl::detail::variant<nbdl::unresolved, ent, nbdl::not_found>>;
  using V = nbdl::detail::variant<nbdl::unresolved, ent, nbdl::not_found>;

  inline V val_of(int kind, u64 v)
  {
    if (kind == 1) return V(ent(v));
    if (kind == 2) return V(nbdl::not_found{});
    return V{};
  }
  inline int kind_of(V const& v) { return v.is<ent>() ? 1 : v.is<nbdl::not_found>() ? 2 : 0; }
  inline u64 ent_of(V const& v) { u64 r = 0; v.match([&](ent const& e) { r = e.h; }, [](auto const&) { }); return r; }

  template <int init, typename S> void prepare(S& s, u64 a, u64 b, u64 v0, u64 oa, u64 ob, u64 ov)
  {
    using VT = typename std::decay_t<decltype(s.map)>::value_type;
    if (oa == a && ob == b) __builtin_unreachable();
    s.map.has = init != 0;
    s.map.has_other = true;
    new (s.map.s_item.raw) VT(path(pk<1>{a}, pk<2>{b}), val_of(init - 1, v0));
    new (s.map.s_other.raw) VT(path(pk<1>{oa}, pk<2>{ob}), val_of(1, ov));
  }
  template <typename S> void report(S const& s)
  {
    if (s.map.has) evt_state<0>(true, kind_of(s.map.item()->second), ent_of(s.map.item()->second));
    else evt_state<0>(false, 0, 0);
    if (s.map.has_other) evt_state<1>(true, kind_of(s.map.other()->second), ent_of(s.map.other()->second));
    else evt_state<1>(false, 0, 0);
  }
  template <typename S> void distinct(S const& s)
  {
    using M = std::decay_t<decltype(s.map)>;
    if (typename M::key_equal{}(s.map.item()->first, s.map.other()->first)) evt_mixed_up();
    if (!typename M::key_equal{}(s.map.item()->first, s.map.item()->first)) evt_mixed_up();
  }
  struct see
  {
    template <typename T> void operator()(T&& t) const
    {
      constexpr bool c = std::is_const_v<std::remove_reference_t<T>>;
      using D = std::decay_t<T>;
      if constexpr (std::is_same_v<D, nbdl::unresolved>) evt_seen<0, c>(0);
      else if constexpr (std::is_same_v<D, ent>) evt_seen<1, c>(t.h);
      else if constexpr (std::is_same_v<D, nbdl::not_found>) evt_seen<2, c>(0);
      else if constexpr (std::is_same_v<D, nbdl::not_in_set>) evt_seen<3, c>(0);
      else evt_seen<9, c>(0);
    }
  };
  inline path mk(u64 a, u64 b) { return path(pk<1>{a}, pk<2>{b}); }

#define OP(NAME, S, INIT, EXPR) \
  WIT void wit_##NAME##_##S##_##INIT(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) \
  { S s; prepare<INIT>(s, a, b, v0, oa, ob, ov); bool r = nbdl::apply_message(s, EXPR); evt_changed(r); report(s); } \
  WIT void wit_L##NAME##_##S##_##INIT(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) \
  { S s; prepare<INIT>(s, a, b, v0, oa, ob, ov); auto const m = EXPR; bool r = nbdl::apply_message(s, m); evt_changed(r); report(s); }
#define ALL(NAME, EXPR) \
  OP(NAME, store, 0, (EXPR)) OP(NAME, store, 1, (EXPR)) OP(NAME, store, 2, (EXPR)) OP(NAME, store, 3, (EXPR)) \
  OP(NAME, bstore, 0, (EXPR)) OP(NAME, bstore, 1, (EXPR)) OP(NAME, bstore, 2, (EXPR)) OP(NAME, bstore, 3, (EXPR))
  ALL(uc, message::make_upstream_create(mk(a, b), uid(u), ent(p)))
  ALL(ur, message::make_upstream_read(mk(a, b), uid(u)))
  ALL(uu, message::make_upstream_update(mk(a, b), uid(u), ent(p)))
  ALL(ud, message::make_upstream_delete(mk(a, b), uid(u)))
  ALL(dc, message::make_downstream_create(mk(a, b), uid(u), ent(p), true))
  ALL(dr, message::make_downstream_read(mk(a, b), uid(u), ent(p)))
  ALL(dn, message::make_downstream_read(mk(a, b), uid(u), nbdl::not_found{}))
  ALL(du, message::make_downstream_update(mk(a, b), uid(u), ent(p), true))
  ALL(dd, message::make_downstream_delete(mk(a, b), uid(u), true))
#define LOOK(S, INIT) \
  WIT void wit_match_##S##_##INIT(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) \
  { S s; prepare<INIT>(s, a, b, v0, oa, ob, ov); nbdl::match(s, mk(a, b), see{}); report(s); } \
  WIT void wit_cmatch_##S##_##INIT(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) \
  { S s; prepare<INIT>(s, a, b, v0, oa, ob, ov); S const& c = s; nbdl::match(c, mk(a, b), see{}); report(s); }
  LOOK(store, 0) LOOK(store, 1) LOOK(store, 2) LOOK(store, 3)
  LOOK(bstore, 0) LOOK(bstore, 1) LOOK(bstore, 2) LOOK(bstore, 3)

  WIT void wit_keys_store(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) { store s; prepare<1>(s, a, b, v0, oa, ob, ov); distinct(s); }
  WIT void wit_keys_bstore(u64 a, u64 b, u64 u, u64 p, u64 v0, u64 oa, u64 ob, u64 ov) { bstore s; prepare<1>(s, a, b, v0, oa, ob, ov); distinct(s); }
  // a store made by the framework starts out empty
  WIT void wit_empty_store() { auto s = nbdl::make_store_impl<nbdl::map_store_tag>::apply(hana::type_c<path>, hana::type_c<ent>); report(s); }
  WIT void wit_empty_bstore() { auto s = nbdl::make_store_impl<nbdl::basic_map_store_tag>::apply(hana::type_c<path>, hana::type_c<V>); report(s); }
}
