// Deltas of an entity with opaque members (two of the same type) and one empty member.
#include "wit.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/delta.hpp>
namespace wit
{
  struct nil { };
  using A = tval<1>; using B = tval<2>;
  struct ent { A a{0}; B b{0}; nil n; A c{0}; };
}
namespace nbdl { NBDL_ENTITY(wit::ent, a, b, n, c); }
namespace boost::hana
{
  template <int i> struct equal_impl<wit::tval<i>, wit::tval<i>>
  { static constexpr bool apply(wit::tval<i> const& a, wit::tval<i> const& b) { return a.h == b.h; } };
}
namespace wit
{
  using D = nbdl::delta<ent>;
  template <int i> void evt_member(u64) noexcept;
  template <int i> void evt_part(bool present, u64) noexcept;
  void evt_result(bool) noexcept;
  inline ent mk(u64 a, u64 b, u64 c) { ent e; e.a.h = a; e.b.h = b; e.c.h = c; return e; }
  inline void tell(ent const& e) { evt_member<0>(e.a.h); evt_member<1>(e.b.h); evt_member<2>(e.c.h); }
  template <int i, typename O> void part(O const& o)
  {
    bool has = !o.template is<nbdl::nothing>(); u64 h = 0;
    o.match([](nbdl::nothing) { }, [&](auto const& v) { h = v.h; });
    if (has) evt_part<i>(true, h); else evt_part<i>(false, 0);
  }
  inline void tell(D const& d)
  {
    part<0>(hana::at_c<0>(d.storage)); part<1>(hana::at_c<1>(d.storage)); part<2>(hana::at_c<2>(d.storage));
  }
  inline D mkd(bool ha, bool hb, bool hc, u64 a, u64 b, u64 c)
  {
    D d;
    if (ha) hana::at_c<0>(d.storage) = A(a);
    if (hb) hana::at_c<1>(d.storage) = B(b);
    if (hc) hana::at_c<2>(d.storage) = A(c);
    return d;
  }
  constexpr auto make = nbdl::make_delta<nbdl::delta_tag>;

  WIT void wit_fresh() { D d; tell(d); }
  WIT void wit_make1(u64 a, u64 b, u64 c) { ent const e = mk(a, b, c); D d = make(e); tell(d); tell(e); }
  WIT void wit_make1l(u64 a, u64 b, u64 c) { ent e = mk(a, b, c); D d = make(e); tell(d); tell(e); }
  WIT void wit_make1m(u64 a, u64 b, u64 c) { ent e = mk(a, b, c); D d = make(std::move(e)); tell(d); }
  WIT void wit_make2(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) { ent const e = mk(a, b, c), o = mk(oa, ob, oc); D d = make(e, o); tell(d); tell(e); tell(o); }
  WIT void wit_make2l(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) { ent e = mk(a, b, c), o = mk(oa, ob, oc); D d = make(e, o); tell(d); tell(e); tell(o); }
  WIT void wit_make2m(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) { ent e = mk(a, b, c), o = mk(oa, ob, oc); D d = make(std::move(e), std::move(o)); tell(d); }
#define CASE(X, Y, Z) \
  WIT void wit_apply_##X##Y##Z(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D const d = mkd(X, Y, Z, a, b, c); ent o = mk(oa, ob, oc); bool r = nbdl::apply_delta(d, o); evt_result(r); tell(o); tell(d); } \
  WIT void wit_applyl_##X##Y##Z(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D d = mkd(X, Y, Z, a, b, c); ent o = mk(oa, ob, oc); bool r = nbdl::apply_delta(d, o); evt_result(r); tell(o); tell(d); } \
  WIT void wit_mergel_##X##Y##Z(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D d = mkd(X, Y, Z, a, b, c); D o = mkd(1, 1, 1, oa, ob, oc); nbdl::apply_delta(d, o); tell(d); } \
  WIT void wit_applym_##X##Y##Z(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D d = mkd(X, Y, Z, a, b, c); ent o = mk(oa, ob, oc); bool r = nbdl::apply_delta(std::move(d), o); evt_result(r); tell(o); } \
  WIT void wit_merge_##X##Y##Z##_0(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D const d = mkd(X, Y, Z, a, b, c); D o = mkd(0, 0, 0, oa, ob, oc); nbdl::apply_delta(d, o); tell(o); } \
  WIT void wit_merge_##X##Y##Z##_1(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc) \
  { D const d = mkd(X, Y, Z, a, b, c); D o = mkd(1, 1, 1, oa, ob, oc); nbdl::apply_delta(d, o); tell(o); }
  CASE(0, 0, 0) CASE(0, 0, 1) CASE(0, 1, 0) CASE(0, 1, 1) CASE(1, 0, 0) CASE(1, 0, 1) CASE(1, 1, 0) CASE(1, 1, 1)
  // the difference of two versions, applied to the older one, is the newer one
  WIT void wit_law(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc)
  { ent const e = mk(a, b, c); ent o = mk(oa, ob, oc); bool r = nbdl::apply_delta(make(e, o), o); evt_result(r); tell(o); }
  // applying a delta again changes nothing
  WIT void wit_again(u64 a, u64 b, u64 c, u64 oa, u64 ob, u64 oc)
  { D const d = mkd(1, 0, 1, a, b, c); ent o = mk(oa, ob, oc); nbdl::apply_delta(d, o); bool r = nbdl::apply_delta(d, o); evt_result(r); tell(o); }
}
