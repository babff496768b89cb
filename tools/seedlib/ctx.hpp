#ifndef CTX_HPP
#define CTX_HPP
#include <cassert>
#include <cstdio>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <boost/hana.hpp>
#include <type_traits>
#include <utility>

namespace wit
{
  namespace hana = boost::hana;
  using u64 = unsigned long;

  // an opaque value (tag distinguishes types, h is the identity of the value)
  template <int tag>
  struct val
  {
    u64 h;
  };

  template <int tag>
  constexpr bool operator==(val<tag> a, val<tag> b) { return a.h == b.h; }

  // like val, but a moved-from value is visibly gone
  constexpr u64 gone = ~0ul - 7;
  template <int tag>
  struct tval
  {
    u64 h;
    constexpr explicit tval(u64 x) : h(x) { }
    constexpr tval(tval const& o) : h(o.h) { }
    constexpr tval(tval&& o) : h(o.h) { o.h = gone; }
    constexpr tval& operator=(tval const& o) { h = o.h; return *this; }
    constexpr tval& operator=(tval&& o) { u64 x = o.h; o.h = gone; h = x; return *this; }
  };

  template <int tag>
  constexpr bool operator==(tval<tag> const& a, tval<tag> const& b) { return a.h == b.h; }
}

#include <mpdef/list.hpp>
#include <nbdl/concept/Store.hpp>
#include <nbdl/context.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/message.hpp>
#include <nbdl/null_store.hpp>

namespace wit
{
  namespace message = nbdl::message;
  using namespace boost::hana::literals;

  // ---- events -------------------------------------------------------------
  // chan: 0 upstream, 1 downstream; act: 0 create, 1 read, 2 update, 3 delete
  // path: index of the path type; ncr: the path is still a create_path
  template <int actor, int chan, int act, int path>
  void evt_up(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept;
  template <int actor, int chan, int act, int path>
  void evt_down(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept;
  template <int store, int chan, int act, int path>
  bool evt_apply(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept;
  template <int store, int chan, int act, int path>
  bool evt_foreign(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept;
  template <int store> u64 evt_foreign_key() noexcept;
  template <int actor, int path> void evt_notify(u64 k1, u64 k2) noexcept;
  template <int store> int evt_lookup(u64 k1, u64 k2) noexcept;
  template <int store> u64 evt_stored() noexcept;
  template <int actor> void evt_producer_init() noexcept;
  template <int actor> void evt_consumer_init() noexcept;
  template <int store> u64 evt_get(u64 k1, u64 k2) noexcept;
  template <int kind, bool is_const> void evt_seen(u64 v) noexcept;   // what a reader was given
  struct see
  {
    template <typename T> void operator()(T&& t) const
    {
      constexpr bool c = std::is_const_v<std::remove_reference_t<T>>;
      if constexpr (std::is_same_v<std::decay_t<T>, nbdl::unresolved>) evt_seen<1, true>(0);
      else if constexpr (std::is_same_v<std::decay_t<T>, nbdl::trigger_read>) evt_seen<0, true>(0);
      else evt_seen<2, c>(t.h);
    }
  };

  // ---- entities, keys and paths -------------------------------------------
  template <int i> struct root { u64 h; };
  template <int i> struct entity { u64 h; };

  template <typename E>
  struct key
  {
    u64 h;
    explicit key(u64 h_) : h(h_) { }
  };
  template <typename A>
  constexpr bool operator==(key<A> a, key<A> b) { return a.h == b.h; }

  template <int r, int e> using path_t = hana::tuple<key<root<r>>, key<entity<e>>>;

  template <typename P> constexpr int path_id = -1;
  template <int r, int e> constexpr int path_id<path_t<r, e>> = r * 10 + e;
  template <int r, int e> constexpr int path_id<
    message::create_path<key<entity<e>>, hana::tuple<key<root<r>>>>> = 1000 + r * 10 + e;

  template <typename P> u64 k1(P const& p)
  {
    if constexpr (path_id<P> >= 1000) return hana::front(p.parent_path).h;
    else return hana::front(p).h;
  }
  template <typename P> u64 k2(P const& p)
  {
    if constexpr (path_id<P> >= 1000) return ~0ul;
    else return hana::back(p).h;
  }

  constexpr u64 none = ~0ul;

  template <typename M> constexpr int chan_of = message::is_upstream<M> ? 0 : message::is_downstream<M> ? 1 : 9;
  template <typename M> constexpr int act_of = message::is_create<M> ? 0 : message::is_read<M> ? 1
    : message::is_update<M> ? 2 : message::is_delete<M> ? 3 : 9;
  template <typename M> u64 uid_of(M const& m)
  {
    if constexpr (message::has_uid<M>) return message::get_uid(m).h;
    else return none;
  }
  template <typename T> u64 h_of(T const& t) { return t.h; }
  inline u64 h_of(nbdl::unresolved const&) { return none - 1; }
  template <typename M> u64 payload_of(M const& m)
  {
    if constexpr (message::has_payload<M>) return h_of(message::get_payload(m));
    else return none;
  }
  template <typename M> u64 conf_of(M const& m)
  {
    if constexpr (message::is_downstream<M> && message::is_read<M>) return none;
    else if constexpr (message::has_is_confirmed<M>) return message::is_confirmed(m) ? 1 : 0;
    else return none;
  }
#define WIT_MSG(EVT, N, m) \
  EVT<N, chan_of<decltype(m)>, act_of<decltype(m)>, \
      path_id<std::decay_t<decltype(message::get_path(m))>>>( \
    k1(message::get_path(m)), k2(message::get_path(m)), uid_of(m), payload_of(m), conf_of(m))

  // ---- stores ---------------------------------------------------------------
  template <int mode> struct ostore_tag { };   // 0: bool, 1: false_, 2: true_
  template <int id, int mode> struct ostore { using hana_tag = ostore_tag<mode>; static constexpr int n = id; val<id> v; };

  // ---- actors ---------------------------------------------------------------
  template <int i> struct producer_tag { };
  template <int i> struct consumer_tag { };
  template <int i> struct state_consumer_tag { };
  template <int i> struct both_tag { };      // consumer and state consumer
  template <int i> struct peer_tag { };      // producer, consumer and state consumer
#ifdef PEERS
  template <int i> using producer1_tag = peer_tag<i>; template <int i> using consumer5_tag = peer_tag<i>;
#else
  template <int i> using producer1_tag = producer_tag<i>; template <int i> using consumer5_tag = consumer_tag<i>;
#endif

  template <int i> void evt_actor(u64 ctx, u64 arg) noexcept;
  template <typename T> constexpr int tag_no = -1;
  template <template <int> class T, int i> constexpr int tag_no<T<i>> = i;
  template <typename Tag, typename Ctx>
  struct actor
  {
    using hana_tag = Tag;
    Ctx context;
    template <typename A>
    actor(nbdl::actor_initializer<Ctx, A>&& p) : context(p.context)
    {
      if constexpr (std::is_same_v<std::decay_t<A>, val<300>>) evt_actor<tag_no<Tag>>(handle_of(p.context), p.value.h);
      else evt_actor<tag_no<Tag>>(handle_of(p.context), none);
    }
    static u64 handle_of(Ctx const& c)
    {
      // the context a handle refers to
      static_assert(sizeof(Ctx) == sizeof(void*));
      return __builtin_bit_cast(u64, c);
    }
  };
}

namespace nbdl
{
  template <int r> struct entity_members_impl<wit::key<wit::root<r>>>
  { using type = mpdef::list<NBDL_MEMBER(&wit::key<wit::root<r>>::h)>; };

#define WIT_ACTOR(T) \
  template <int i, typename C> struct actor_type<wit::T<i>, C> { using type = wit::actor<wit::T<i>, C>; }
  WIT_ACTOR(producer_tag); WIT_ACTOR(consumer_tag); WIT_ACTOR(state_consumer_tag); WIT_ACTOR(both_tag); WIT_ACTOR(peer_tag);

  template <int i> struct send_upstream_message_impl<wit::producer_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; WIT_MSG(evt_up, i, m); } };
  template <int i> struct producer_init_impl<wit::producer_tag<i>>
  { template <typename P> static constexpr void apply(P&) { wit::evt_producer_init<i>(); } };

  template <int i> struct send_downstream_message_impl<wit::consumer_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; WIT_MSG(evt_down, i, m); } };
  template <int i> struct consumer_init_impl<wit::consumer_tag<i>>
  { template <typename P> static constexpr void apply(P&) { wit::evt_consumer_init<i>(); } };

  template <int i> struct send_downstream_message_impl<wit::both_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; WIT_MSG(evt_down, i, m); } };
  template <int i> struct consumer_init_impl<wit::both_tag<i>>
  { template <typename P> static constexpr void apply(P&) { wit::evt_consumer_init<i>(); } };
  template <int i> struct notify_state_change_impl<wit::both_tag<i>>
  { template <typename S, typename P> static constexpr void apply(S&&, P&& p)
    { wit::evt_notify<i, wit::path_id<std::decay_t<P>>>(wit::k1(p), wit::k2(p)); } };
  template <int i> struct send_upstream_message_impl<wit::peer_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; WIT_MSG(evt_up, i, m); } };
  template <int i> struct producer_init_impl<wit::peer_tag<i>>
  { template <typename P> static constexpr void apply(P&) { wit::evt_producer_init<i>(); } };

  template <int i> struct send_downstream_message_impl<wit::peer_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; WIT_MSG(evt_down, i, m); } };
  template <int i> struct consumer_init_impl<wit::peer_tag<i>>
  { template <typename P> static constexpr void apply(P&) { wit::evt_consumer_init<i>(); } };
  template <int i> struct notify_state_change_impl<wit::peer_tag<i>>
  { template <typename S, typename P> static constexpr void apply(S&&, P&& p)
    { wit::evt_notify<i, wit::path_id<std::decay_t<P>>>(wit::k1(p), wit::k2(p)); } };
  template <int i> struct notify_state_change_impl<wit::state_consumer_tag<i>>
  { template <typename S, typename P> static constexpr void apply(S&&, P&& p)
    { wit::evt_notify<i, wit::path_id<std::decay_t<P>>>(wit::k1(p), wit::k2(p)); } };

  template <int mode> struct make_store_impl<wit::ostore_tag<mode>>
  {
    template <typename PathType, typename EntityType>
    static constexpr auto apply(PathType, EntityType)
    { return wit::ostore<wit::path_id<typename PathType::type>, mode>{}; }
  };
  template <int mode> struct apply_message_impl<wit::ostore_tag<mode>>
  {
    template <typename S, typename M> static constexpr auto apply(S&&, M&& m)
    {
      using namespace wit;
      constexpr int N = std::decay_t<S>::n;
      bool r = WIT_MSG(evt_apply, N, m);
      if constexpr (mode == 1) return hana::false_c;
      else if constexpr (mode == 2) return hana::true_c;
      else return r;
    }
  };
  template <int mode> struct apply_foreign_message_impl<wit::ostore_tag<mode>>
  {
    template <typename S, typename M, typename F> static constexpr void apply(S&&, M&& m, F&& f)
    {
      using namespace wit;
      constexpr int N = std::decay_t<S>::n;
      if (WIT_MSG(evt_foreign, N, m))
        f(path_t<N / 10, N % 10>(wit::key<root<N / 10>>(evt_foreign_key<N>()), wit::key<wit::entity<N % 10>>(evt_foreign_key<N>())));
    }
  };
  template <int mode> struct match_impl<wit::ostore_tag<mode>>
  {
    template <typename S, typename K, typename F> static constexpr void apply(S&&, K&& k, F&& f)
    {
      constexpr int N = std::decay_t<S>::n;
      int w = wit::evt_lookup<N>(wit::k1(k), wit::k2(k));
      if (w == 0) f(nbdl::trigger_read{});
      else if (w == 1) f(nbdl::unresolved{});
      else f(wit::val<N>{wit::evt_stored<N>()});
    }
  };
  template <int mode> struct get_impl<wit::ostore_tag<mode>>
  {
    template <typename S, typename K> static constexpr decltype(auto) apply(S&& s, K&& k)
    { constexpr int N = std::decay_t<S>::n; wit::evt_get<N>(wit::k1(k), wit::k2(k)); return (s.v); }
    template <typename S> static constexpr decltype(auto) apply(S&& s) { return std::forward<S>(s); }
  };
}

namespace wit
{
  struct ctx_def { };
}

namespace wit_def
{
  namespace hana = boost::hana;
  using namespace boost::hana::literals;
  using namespace nbdl_def;
  using wit::root; using wit::entity; using wit::key; using wit::ostore_tag;
  using wit::producer_tag; using wit::consumer_tag; using wit::state_consumer_tag; using wit::both_tag; using wit::producer1_tag; using wit::consumer5_tag;

  constexpr auto make()
  {
    return
      Context(
        Producers(
          Producer(
            Name("p0"_s), Type<producer_tag<0>>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), Entity<root<0>>, PathKey<wit::key<root<0>>>,
                AccessPoint(Name(hana::type_c<void>), Entity<entity<1>>, PathKey<wit::key<entity<1>>>,
                  Store<ostore_tag<0>>, Actions(Create(), Read(), Update(), Delete()))),
              AccessPoint(Name(hana::type_c<void>), Entity<root<0>>, PathKey<wit::key<root<0>>>,
                AccessPoint(Name(hana::type_c<void>), Entity<entity<2>>, PathKey<wit::key<entity<2>>>,
                  Store<ostore_tag<1>>, Actions(Create(), Read(), Update(), Delete()),
                  ListenPaths(Path<wit::key<root<0>>, wit::key<entity<1>>>)))
            )
          ),
          Producer(
            Name("p1"_s), Type<producer1_tag<1>>,
            AccessPoints(
              AccessPoint(Name(hana::type_c<void>), Entity<root<1>>, PathKey<wit::key<root<1>>>,
                AccessPoint(Name(hana::type_c<void>), Entity<entity<3>>, PathKey<wit::key<entity<3>>>,
                  Store<ostore_tag<0>>, Actions(Create(), Read(), Update(), Delete()),
                  ListenPaths(Path<wit::key<root<0>>, wit::key<entity<1>>>,
                              Path<wit::key<root<0>>, wit::key<entity<2>>>))),
              AccessPoint(Name(hana::type_c<void>), Entity<root<1>>, PathKey<wit::key<root<1>>>,
                AccessPoint(Name(hana::type_c<void>), Entity<entity<4>>, PathKey<wit::key<entity<4>>>,
                  Store<ostore_tag<2>>, Actions(Create(), Read(), Update(), Delete())))
            )
          )
        ),
        Consumers(
          Consumer(Name("c2"_s), Type<consumer_tag<2>>),
          Consumer(Name("c3"_s), Type<both_tag<3>>),
          Consumer(Name("c4"_s), Type<state_consumer_tag<4>>),
          Consumer(Name("c5"_s), Type<consumer5_tag<5>>)
        )
      );
  }
}

namespace nbdl
{
  template <>
  struct make_def_impl<wit::ctx_def>
  {
    static constexpr auto apply() { return wit_def::make(); }
  };
}

namespace wit
{
  using Ctx = nbdl::context<ctx_def>;
  template <int r, int e> auto mk(u64 a, u64 b) { return path_t<r, e>(key<root<r>>(a), key<entity<e>>(b)); }
  using uid = val<100>; using pay = val<200>; using priv = val<201>;
  struct uidk { u64 h; operator u64() const { return h; } };   // a uid that names a key

  // ---- what happened, as text ----
  inline std::vector<std::string> events;
  inline int lookup_result = 0;              // 0 trigger_read, 1 unresolved, 2 value
  inline bool store_changes = true, foreign_changes = false;
  inline std::string s(u64 v) { return v == none ? "-" : std::to_string(v); }
  inline void ev(std::string x) { events.push_back(std::move(x)); }
  inline std::string m_(int c, int a, int p, u64 k1, u64 k2, u64 u, u64 pl, u64 cf)
  {
    return std::string(c ? "d" : "u") + "crud"[a] + " " + std::to_string(p) + " " + s(k1) + " " + s(k2) + " " + s(u) + " " + s(pl) + " " + s(cf);
  }
  template <int actor, int chan, int act, int path>
  void evt_up(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept
  { ev("up" + std::to_string(actor) + " " + m_(chan, act, path, k1, k2, uid, payload, conf)); }
  template <int actor, int chan, int act, int path>
  void evt_down(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept
  { ev("down" + std::to_string(actor) + " " + m_(chan, act, path, k1, k2, uid, payload, conf)); }
  template <int store, int chan, int act, int path>
  bool evt_apply(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept
  { ev("apply" + std::to_string(store) + " " + m_(chan, act, path, k1, k2, uid, payload, conf)); return store_changes; }
  template <int store, int chan, int act, int path>
  bool evt_foreign(u64 k1, u64 k2, u64 uid, u64 payload, u64 conf) noexcept
  { ev("foreign" + std::to_string(store) + " " + m_(chan, act, path, k1, k2, uid, payload, conf)); return foreign_changes; }
  template <int store> u64 evt_foreign_key() noexcept { return 500 + store; }
  template <int actor, int path> void evt_notify(u64 k1, u64 k2) noexcept
  { ev("notify" + std::to_string(actor) + " " + std::to_string(path) + " " + s(k1) + " " + s(k2)); }
  template <int store> int evt_lookup(u64 k1, u64 k2) noexcept
  { ev("lookup" + std::to_string(store) + " " + s(k1) + " " + s(k2)); return lookup_result; }
  template <int store> u64 evt_stored() noexcept { return 700 + store; }
  template <int actor> void evt_producer_init() noexcept { ev("pinit" + std::to_string(actor)); }
  template <int actor> void evt_consumer_init() noexcept { ev("cinit" + std::to_string(actor)); }
  template <int store> u64 evt_get(u64 k1, u64 k2) noexcept { ev("get" + std::to_string(store) + " " + s(k1) + " " + s(k2)); return 0; }
  template <int kind, bool is_const> void evt_seen(u64 v) noexcept
  { ev("seen" + std::to_string(kind) + (is_const ? "c " : " ") + s(v)); }
  template <int i> void evt_actor(u64 ctx, u64 arg) noexcept { ev("actor" + std::to_string(i) + " " + s(arg)); (void)ctx; }
  inline int failures = 0;
  inline void expect(char const* what, std::vector<std::string> const& want)
  {
    if (events != want)
    {
      ++failures;
      std::printf("%s:\n", what);
      for (auto& e : events) std::printf("   got  %s\n", e.c_str());
      for (auto& e : want) std::printf("   want %s\n", e.c_str());
    }
    events.clear();
  }
  inline long count(std::string const& prefix)
  {
    long n = 0;
    for (auto& e : events) n += e.rfind(prefix, 0) == 0;
    return n;
  }
}
#endif
