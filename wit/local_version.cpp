// Local versions of an entity: optimistic changes, their confirmation, and foreign changes.
#include "wit.hpp"
#include <unordered_set>
#include <cstring>
#include <deque>
#include <algorithm>
#include <nbdl/delta.hpp>
#include <nbdl/bind_sequence.hpp>

namespace wit
{

  struct entity_tag { }; struct delta_tag { };
  struct ent { using hana_tag = entity_tag; u64 h; };
  // 0 = value, 1 = pending changes; evt_apply answers whether something changed
  template <int target, bool is_const> bool evt_apply(u64 delta) noexcept;
  void evt_result(bool) noexcept;
  template <int slot> void evt_local(bool) noexcept;
  void evt_pending(u64) noexcept;
  void evt_value(u64) noexcept;
  void evt_action(u64, u64) noexcept;
  constexpr u64 pending0 = 77;
}
namespace nbdl
{
  template <> struct delta<wit::ent>
  {
    using hana_tag = wit::delta_tag;
    unsigned long h = wit::gone - 1;      // what a fresh, empty delta looks like

    delta() = default;
    explicit delta(unsigned long x) : h(x) { }
    delta(delta const&) = default;
    delta(delta&& o) : h(o.h) { o.h = wit::gone; }
    delta& operator=(delta const&) = default;
    delta& operator=(delta&& o) { unsigned long x = o.h; o.h = wit::gone; h = x; return *this; }
  };
  template <> struct bind_sequence_impl<wit::entity_tag>
  { template <typename S, typename F> static constexpr auto apply(S&& s, F&& f) { return f(s.h); } };
  template <> struct bind_sequence_impl<wit::delta_tag>
  { template <typename S, typename F> static constexpr auto apply(S&& s, F&& f) { return f(s.h); } };
  template <> struct make_delta_impl<wit::delta_tag>
  { template <typename ...X> static auto apply(X const&...) { return delta<wit::ent>(0); } };
  template <> struct apply_delta_impl<wit::delta_tag>
  {
    template <typename D> static bool apply(D&& d, wit::ent& e) { bool r = wit::evt_apply<0, false>(d.h); if (r) e.h = d.h; return r; }
    template <typename D> static bool apply(D&& d, delta<wit::ent>& e) { return wit::evt_apply<1, false>(d.h); }
  };
  template <> struct match_impl<wit::entity_tag>
  { template <typename S, typename F> static constexpr void apply(S&& s, F&& f) { f(s.h); } };
}
#include <nbdl/local_version.hpp>

namespace wit
{
  namespace message = nbdl::message;
  using store = nbdl::local_version<ent>;
  using path = hana::tuple<val<1>>;
  using D = nbdl::delta<ent>;

  inline nbdl::uid mk(u64 a, u64 b)
  {
    nbdl::uid u{};
    std::memcpy(u.data(), &a, 8); std::memcpy(u.data() + 8, &b, 8);
    return u;
  }
  template <typename M> inline void run(M&& m, u64 ua, u64 ub, u64 oa, u64 ob, bool has, bool other, u64 v)
  {
    store s{ent{v}};
    if (oa == ua && ob == ub) __builtin_unreachable();
    s.pending_delta.h = pending0;
    s.local_uids.has = has; s.local_uids.has_other = other;
    new (s.local_uids.s_item.raw) nbdl::uid(mk(ua, ub));
    new (s.local_uids.s_other.raw) nbdl::uid(mk(oa, ob));
    bool r = nbdl::apply_message(s, static_cast<M&&>(m));
    evt_result(r);
    evt_local<0>(s.local_uids.has); evt_local<1>(s.local_uids.has_other);
    evt_pending(s.pending_delta.h);
    evt_value(s.value.h);
  }
#define ARGS u64 ua, u64 ub, u64 oa, u64 ob, u64 d, u64 v, bool confirmed
#define RUN(NAME, HAS, OTHER, MSG) \
  WIT void wit_##NAME##_##HAS##OTHER(ARGS) { run(MSG, ua, ub, oa, ob, HAS, OTHER, v); } \
  WIT void wit_L##NAME##_##HAS##OTHER(ARGS) { auto const m = MSG; run(m, ua, ub, oa, ob, HAS, OTHER, v); }
#define ALL(NAME, ...) RUN(NAME, 0, 0, (__VA_ARGS__)) RUN(NAME, 0, 1, (__VA_ARGS__)) RUN(NAME, 1, 0, (__VA_ARGS__)) RUN(NAME, 1, 1, (__VA_ARGS__))
  ALL(uu, message::make_upstream_update(path{}, mk(ua, ub), D(d)))
  ALL(uc, message::make_upstream_create(path{}, mk(ua, ub), D(d)))
  ALL(du, message::make_downstream_update(path{}, mk(ua, ub), D(d), confirmed))
  ALL(dc, message::make_downstream_create(path{}, mk(ua, ub), D(d), confirmed))

  WIT void wit_fresh(u64 v)
  {
    store s{ent{v}};
    evt_local<0>(s.local_uids.has); evt_local<1>(s.local_uids.has_other); evt_pending(s.pending_delta.h); evt_value(s.value.h);
  }
  WIT void wit_look(u64 v) { store s{ent{v}}; nbdl::match(s, [](auto&& x) { evt_value(x); }); }
}
