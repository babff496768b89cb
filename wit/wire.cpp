// Messages written to JSON documents and read back.
#include "wit.hpp"
#include <nbdl/string.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/concept/DownstreamMessage.hpp>
#include <nbdl/concept/UpstreamMessage.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace wit
{
  namespace message = nbdl::message;
  void evt_r_int(int) noexcept; void evt_r_bool(bool) noexcept; void evt_r_str(char const* b, u64 n) noexcept; void evt_r_id(int) noexcept;
  void evt_r_part(int) noexcept;   // 0 path, 1 uid, 2 payload, 3 private payload, 4 confirmation

  struct rkey { int v; };
  struct ckey { int w; nbdl::string s; };
  struct doc { int p; nbdl::string q; };
  struct small { int t; };
  struct priv { int x; int y; };
  struct uid { int u; };
  struct note { int level; nbdl::string value; };
  struct root { int v; };
}
namespace nbdl
{
  NBDL_ENTITY(wit::rkey, v);
  NBDL_ENTITY(wit::ckey, w, s);
  NBDL_ENTITY(wit::doc, p, q);
  NBDL_ENTITY(wit::small, t);
  NBDL_ENTITY(wit::priv, x, y);
  NBDL_ENTITY(wit::uid, u);
  NBDL_ENTITY(wit::note, level, value);
}
namespace wit
{
  struct wire_def { };
  struct ptag { };
  namespace def
  {
    using namespace boost::hana::literals;
    using namespace nbdl_def;
    constexpr auto make()
    {
      return Context(
        Producers(Producer(Name("a"_s), Type<ptag>, AccessPoints(
          AccessPoint(Name("r"_s), Entity<root>, PathKey<rkey>, Actions(),
            AccessPoint(Name("d"_s), Entity<doc>, PathKey<ckey>, Actions(Create(), Read(), Update(), Delete())),
            AccessPoint(Name("s"_s), Entity<small>, PathKey<uid>, Actions(Read())))))),
        Consumers(Consumer(Name("c"_s), Type<ptag>)));
    }
  }
}
namespace nbdl
{
  template <> struct make_def_impl<wit::wire_def> { static constexpr auto apply() { return wit::def::make(); } };
}
namespace wit
{
  inline void show(int x) { evt_r_int(x); } inline void show(bool x) { evt_r_bool(x); }
  inline void show(nbdl::string const& s) { evt_r_str(s.b, s.n); }
  inline void show(rkey const& x) { show(x.v); } inline void show(ckey const& x) { show(x.w); show(x.s); }
  inline void show(doc const& x) { show(x.p); show(x.q); } inline void show(small const& x) { show(x.t); }
  inline void show(priv const& x) { show(x.x); show(x.y); } inline void show(uid const& x) { show(x.u); }
  inline void show(note const& x) { show(x.level); show(x.value); }
  inline void show(nbdl::unresolved) { } inline void show(nbdl::not_found) { } inline void show(message::no_impl) { }
  template <typename T> void show(hana::basic_type<T>) { }
  template <typename ...T> void show(hana::tuple<T...> const& t) { hana::for_each(t, [](auto const& x) { show(x); }); }
  template <typename K, typename P> void show(message::create_path<K, P> const& p) { show(p.parent_path); }
  template <typename M> requires (nbdl::UpstreamMessage<M> || nbdl::DownstreamMessage<M>)
  void show(M const& m)
  {
    evt_r_part(0); show(message::get_path(m));
    if constexpr (message::has_uid<M>) { evt_r_part(1); show(message::get_uid(m)); }
    if constexpr (message::has_payload<M>) { evt_r_part(2); show(message::get_payload(m)); }
    if constexpr (message::has_private_payload<M>) { evt_r_part(3); show(message::get_private_payload(m)); }
    if constexpr (message::has_is_confirmed<M>) { evt_r_part(4); show(message::is_confirmed(m)); }
  }
  template <typename V> void show_variant(V const& v) { evt_r_id(v.get_type_id()); v.match([](auto const& x) { show(x); }); }

  template <typename T> [[gnu::always_inline]] inline void read(std::string const& s, T x) { nbdl::binder::jsoncpp::from_string(s, x); show(x); }
  template <typename T> [[gnu::always_inline]] inline void write(T const& x) { auto s = nbdl::binder::jsoncpp::to_string(x); }

  template <typename ...T> using tup = hana::tuple<T...>;
  using kind = hana::type<int>;
  using n = message::no_impl;
  using P1 = tup<rkey>; using P2 = tup<rkey, ckey>; using P3 = tup<uid, rkey, ckey>; using PE = tup<kind, ckey>; using PN = tup<kind>;
  using C0 = message::create_path<ckey, tup<>>; using C1 = message::create_path<ckey, tup<rkey>>; using C2 = message::create_path<ckey, tup<uid, rkey>>;

  using api = nbdl::message_api<wire_def, note>;
  template <typename> struct with_note; template <typename F, typename ...T> struct with_note<nbdl::variant<F, T...>> { using type = nbdl::variant<note, T...>; };
  using up = api::upstream_variant; using down = with_note<api::downstream_variant_>::type;
}
using namespace wit;
using text = std::string const&;
using nbdl::string;
#define S string(b, m)

#define MESSAGES \
  X(uc1, (message::upstream_create<C1, n, doc, n>), message::make_upstream_create(C1{{rkey{i0}}}, message::no_uid, doc{i1, S})) \
  X(uc0, (message::upstream_create<C0, n, doc, n>), message::make_upstream_create(C0{{}}, message::no_uid, doc{i1, S})) \
  X(uc2u, (message::upstream_create<C2, uid, doc, n>), message::make_upstream_create(C2{tup<uid, rkey>{uid{i0}, rkey{i1}}}, uid{i2}, doc{i3, S})) \
  X(uc1p, (message::upstream_create<C1, n, doc, priv>), message::make_upstream_create(C1{{rkey{i0}}}, message::no_uid, doc{i1, S}, priv{i2, i3})) \
  X(uc2a, (message::upstream_create<P2, uid, doc, priv>), message::make_upstream_create(P2{rkey{i0}, ckey{i4, S}}, uid{i1}, doc{i5, string(b + 1, m)}, priv{i2, i3})) \
  X(ur1, (message::upstream_read<P1, n>), message::make_upstream_read(P1{rkey{i0}})) \
  X(ur2, (message::upstream_read<P2, n>), message::make_upstream_read(P2{rkey{i0}, ckey{i1, S}})) \
  X(ur3u, (message::upstream_read<P3, uid>), message::make_upstream_read(P3{uid{i0}, rkey{i1}, ckey{i2, S}}, uid{i3})) \
  X(ure, (message::upstream_read<PE, uid>), message::make_upstream_read(PE{kind{}, ckey{i1, S}}, uid{i3})) \
  X(urn, (message::upstream_read<PN, uid>), message::make_upstream_read(PN{kind{}}, uid{i3})) \
  X(uu2, (message::upstream_update<P2, n, doc>), message::make_upstream_update(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)})) \
  X(uu2u, (message::upstream_update<P2, uid, small>), message::make_upstream_update(P2{rkey{i0}, ckey{i1, S}}, uid{i3}, small{i2})) \
  X(ud2, (message::upstream_delete<P2, n>), message::make_upstream_delete(P2{rkey{i0}, ckey{i1, S}}, message::no_uid)) \
  X(ud1u, (message::upstream_delete<P1, uid>), message::make_upstream_delete(P1{rkey{i0}}, uid{i1})) \
  X(dc2, (message::downstream_create<P2, n, doc, n>), message::make_downstream_create(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}, message::no_is_confirmed)) \
  X(dc1ub, (message::downstream_create<P1, uid, doc, bool>), message::make_downstream_create(P1{rkey{i0}}, uid{i1}, doc{i2, S}, i5 == 0)) \
  X(dr2, (message::downstream_read<P2, n, doc>), message::make_downstream_read(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)})) \
  X(dr1u, (message::downstream_read<P1, uid, small>), message::make_downstream_read(P1{rkey{i0}}, uid{i1}, small{i2})) \
  X(dn2, (message::downstream_read<P2, n, nbdl::not_found>), message::make_downstream_read(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, nbdl::not_found{})) \
  X(du2b, (message::downstream_update<P2, n, doc, bool>), message::make_downstream_update(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}, i5 == 0)) \
  X(du1, (message::downstream_update<P1, n, small, n>), message::make_downstream_update(P1{rkey{i0}}, message::no_uid, small{i1}, message::no_is_confirmed)) \
  X(dd2, (message::downstream_delete<P2, n, n>), message::make_downstream_delete(P2{rkey{i0}, ckey{i1, S}}, message::no_uid, message::no_is_confirmed)) \
  X(dd1ub, (message::downstream_delete<P1, uid, bool>), message::make_downstream_delete(P1{rkey{i0}}, uid{i1}, i5 == 0))

template <typename T> struct unparen; template <typename T> struct unparen<void(T)> { using type = T; };
#define X(N, TYPE, MAKE) \
  WIT void wit_r_##N(text s) { read(s, unparen<void TYPE>::type{}); } \
  WIT void wit_w_##N(int i0, int i1, int i2, int i3, int i4, int i5, char const* b, u64 m) { write(MAKE); }
MESSAGES
#undef X

// every message of the two channels of a definition
using D2 = tup<rkey, ckey>; using S2 = tup<rkey, uid>; using DC = message::create_path<ckey, tup<rkey>>;
#define UP_MESSAGES \
  X(note, (note{i0, S})) \
  X(uc, (message::make_upstream_create(DC{{rkey{i0}}}, message::no_uid, doc{i1, S}))) \
  X(ur, (message::make_upstream_read(D2{rkey{i0}, ckey{i1, S}}))) \
  X(uu, (message::make_upstream_update(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}))) \
  X(ud, (message::make_upstream_delete(D2{rkey{i0}, ckey{i1, S}}, message::no_uid))) \
  X(urs, (message::make_upstream_read(S2{rkey{i0}, uid{i1}})))
#define DOWN_MESSAGES \
  X(note, (note{i0, S})) \
  X(dc, (message::make_downstream_create(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}, message::no_is_confirmed))) \
  X(dr, (message::make_downstream_read(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}))) \
  X(dn, (message::make_downstream_read(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, nbdl::not_found{}))) \
  X(du, (message::make_downstream_update(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, doc{i2, string(b + 1, m)}, message::no_is_confirmed))) \
  X(dd, (message::make_downstream_delete(D2{rkey{i0}, ckey{i1, S}}, message::no_uid, message::no_is_confirmed))) \
  X(drs, (message::make_downstream_read(S2{rkey{i0}, uid{i1}}, message::no_uid, small{i2}))) \
  X(dns, (message::make_downstream_read(S2{rkey{i0}, uid{i1}}, message::no_uid, nbdl::not_found{})))

template <typename V, typename T> constexpr int index_in = -1;
template <typename ...A, typename T> constexpr int index_in<nbdl::variant<A...>, T> = [] { int i = 1, r = -1; ((std::is_same_v<A, T> ? void(r = i++) : void(i++)), ...); return r; }();
template <typename V> constexpr int size_of = -1; template <typename ...A> constexpr int size_of<nbdl::variant<A...>> = sizeof...(A) + 1;
namespace wit { void evt_r_alternative(int which, int of) noexcept; }

#ifdef WIT_CHANNELS_ONLY
#define WITNESS_OF_WRITING(...)
#else
#define WITNESS_OF_WRITING(...) __VA_ARGS__
#endif
#define X(N, MAKE) WITNESS_OF_WRITING(WIT void wit_w_up_##N(int i0, int i1, int i2, char const* b, u64 m) { write(up{MAKE}); }) \
  WIT void wit_i_up_##N(int i0, int i1, int i2, char const* b, u64 m) { evt_r_alternative(index_in<api::upstream_variant_, std::decay_t<decltype(MAKE)>>, size_of<api::upstream_variant_>); }
UP_MESSAGES
#undef X
#define X(N, MAKE) WITNESS_OF_WRITING(WIT void wit_w_down_##N(int i0, int i1, int i2, char const* b, u64 m) { write(down{MAKE}); }) \
  WIT void wit_i_down_##N(int i0, int i1, int i2, char const* b, u64 m) { evt_r_alternative(index_in<down, std::decay_t<decltype(MAKE)>>, size_of<down>); }
DOWN_MESSAGES
#undef X

#ifndef WIT_CHANNELS_ONLY
WIT void wit_r_up(text s) { up x; nbdl::binder::jsoncpp::from_string(s, x); show_variant(x); }
WIT void wit_r_down(text s) { down x; nbdl::binder::jsoncpp::from_string(s, x); show_variant(x); }
#endif
