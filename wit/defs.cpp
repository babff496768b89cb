// Contexts generated from definitions of many shapes; the definitions (namespace wit_def) and what is done with them are generated by checks/defs.py
#include "wit.hpp"
#include <mpdef/list.hpp>
#include <nbdl/concept/Store.hpp>
#include <nbdl/context.hpp>
#include <nbdl/def/builder/context.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/null_store.hpp>

namespace wit
{
  namespace message = nbdl::message;
  using namespace boost::hana::literals;
  // act: 0 create, 1 read, 2 update, 3 delete; path: digits of its keys
  template <int actor, int act, int path> void evt_up(u64) noexcept;
  template <int actor, int act, int path> void evt_down(u64) noexcept;
  template <int store, int entity, int act, int path> bool evt_apply(u64) noexcept;
  template <int store, int act, int path> bool evt_foreign(u64) noexcept;
  template <int actor, int path> void evt_notify() noexcept;
  template <int store, int path> int evt_lookup() noexcept;
  template <int kind> void evt_seen() noexcept;
  template <int actor> void evt_started() noexcept;
  template <int actor> void evt_r_made(u64 arg) noexcept;
  template <int api, int act, int path, bool up, bool other> void evt_r_can() noexcept;

  template <int i> struct ent { u64 h; };
  template <int i> struct key { u64 h = 0; };
  template <int i> constexpr bool operator==(key<i> a, key<i> b) { return a.h == b.h; }

  template <typename P> constexpr int path_id = -1;
  constexpr int digits(std::initializer_list<int> l) { int r = 0; for (int i : l) r = r * 10 + i; return r; }
  template <int ...i> constexpr int path_id<hana::tuple<key<i>...>> = digits({i...});
  template <int e, int ...i> constexpr int path_id<message::create_path<key<e>, hana::tuple<key<i>...>>> = 10000 + digits({i..., e});
  template <typename M> constexpr int act_of = message::is_create<M> ? 0 : message::is_read<M> ? 1 : message::is_update<M> ? 2 : message::is_delete<M> ? 3 : 9;
  template <typename M> constexpr int path_of = path_id<std::decay_t<decltype(message::get_path(std::declval<M const&>()))>>;
  template <typename M> u64 payload_of(M const& m)
  {
    if constexpr (message::has_payload<M>) { if constexpr (requires { message::get_payload(m).h; }) return message::get_payload(m).h; else return ~1ul; }
    else return ~0ul;
  }

  // stores remember for which path and entity they were made; their answer is a bool, statically no, or statically yes
  template <int mode> struct ostore_tag { };
  template <int id, int entity, int mode> struct ostore { using hana_tag = ostore_tag<mode>; };
  template <typename E> constexpr int entity_no = -1;
  template <int i> constexpr int entity_no<ent<i>> = i;
  template <int mode> constexpr int entity_no<ostore_tag<mode>> = 100;

  template <int i> struct producer_tag { };
  template <int i> struct consumer_tag { };
  template <int i> struct state_consumer_tag { };
  template <int i> struct both_tag { };
  template <typename T> constexpr int tag_no = -1;
  template <template <int> class T, int i> constexpr int tag_no<T<i>> = i;
  template <typename Tag, typename Ctx> struct actor
  {
    using hana_tag = Tag;
    template <typename A> actor(nbdl::actor_initializer<Ctx, A>&& p)
    {
      if constexpr (requires { p.value.h; }) evt_r_made<tag_no<Tag>>(p.value.h);
      else evt_r_made<tag_no<Tag>>(~0ul);
    }
  };
}
namespace nbdl
{
  template <int i> struct entity_members_impl<wit::key<i>> { using type = mpdef::list<NBDL_MEMBER(&wit::key<i>::h)>; };
#define WIT_ACTOR(T) template <int i, typename C> struct actor_type<wit::T<i>, C> { using type = wit::actor<wit::T<i>, C>; }
  WIT_ACTOR(producer_tag); WIT_ACTOR(consumer_tag); WIT_ACTOR(state_consumer_tag); WIT_ACTOR(both_tag);
  template <int i> struct send_upstream_message_impl<wit::producer_tag<i>>
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; using N = std::decay_t<M>; evt_up<i, act_of<N>, path_of<N>>(payload_of(m)); } };
  template <int i> struct producer_init_impl<wit::producer_tag<i>> { template <typename P> static constexpr void apply(P&) { wit::evt_started<i>(); } };
#define WIT_CONSUMER(T) \
  template <int i> struct send_downstream_message_impl<wit::T<i>> \
  { template <typename P, typename M> static constexpr auto apply(P&&, M&& m) { using namespace wit; using N = std::decay_t<M>; evt_down<i, act_of<N>, path_of<N>>(payload_of(m)); } }; \
  template <int i> struct consumer_init_impl<wit::T<i>> { template <typename P> static constexpr void apply(P&) { wit::evt_started<i>(); } };
  WIT_CONSUMER(consumer_tag) WIT_CONSUMER(both_tag)
#define WIT_STATE(T) \
  template <int i> struct notify_state_change_impl<wit::T<i>> { template <typename S, typename P> static constexpr void apply(S&&, P&&) { wit::evt_notify<i, wit::path_id<std::decay_t<P>>>(); } };
  WIT_STATE(both_tag) WIT_STATE(state_consumer_tag)
  template <int mode> struct make_store_impl<wit::ostore_tag<mode>>
  {
    template <typename PathType, typename EntityType> static constexpr auto apply(PathType, EntityType)
    { return wit::ostore<wit::path_id<typename PathType::type>, wit::entity_no<typename EntityType::type>, mode>{}; }
  };
  template <int mode> struct apply_message_impl<wit::ostore_tag<mode>>
  {
    template <int id, int e, typename M> static constexpr auto go(wit::ostore<id, e, mode> const&, M&& m)
    {
      using namespace wit; using N = std::decay_t<M>;
      bool r = evt_apply<id, e, act_of<N>, path_of<N>>(payload_of(m));
      if constexpr (mode == 1) return hana::false_c; else if constexpr (mode == 2) return hana::true_c; else return r;
    }
    template <typename S, typename M> static constexpr auto apply(S&& s, M&& m) { return go(s, m); }
  };
  template <int ...> struct of_digits;
  template <int mode> struct apply_foreign_message_impl<wit::ostore_tag<mode>>
  {
    template <int id, int e, typename M, typename F> static constexpr void go(wit::ostore<id, e, mode> const&, M&& m, F&& f)
    {
      using namespace wit; using N = std::decay_t<M>;
      if (evt_foreign<id, act_of<N>, path_of<N>>(payload_of(m)))
      {
        if constexpr (id < 10) f(hana::make_tuple(wit::key<id>{}));
        else if constexpr (id < 100) f(hana::make_tuple(wit::key<id / 10>{}, wit::key<id % 10>{}));
        else f(hana::make_tuple(wit::key<id / 100>{}, wit::key<id / 10 % 10>{}, wit::key<id % 10>{}));
      }
    }
    template <typename S, typename M, typename F> static constexpr void apply(S&& s, M&& m, F&& f) { go(s, m, f); }
  };
  template <int mode> struct match_impl<wit::ostore_tag<mode>>
  {
    template <int id, int e, typename K, typename F> static constexpr void go(wit::ostore<id, e, mode> const&, K&&, F&& f)
    {
      switch (wit::evt_lookup<id, wit::path_id<std::decay_t<K>>>())
      {
      case 0: f(nbdl::trigger_read{}); break;
      case 1: f(nbdl::unresolved{}); break;
      default: f(wit::val<1>{5}); break;
      }
    }
    template <typename S, typename K, typename F> static constexpr void apply(S&& s, K&& k, F&& f) { go(s, k, f); }
  };
}
namespace wit
{
  struct see
  {
    template <typename T> void operator()(T const&) const
    { evt_seen<std::is_same_v<T, nbdl::unresolved> ? 1 : std::is_same_v<T, val<1>> ? 2 : 3>(); }
  };
  using uid = val<100>; using pay = val<200>; using arg_t = val<300>;
  template <typename Last, typename ...Rest> auto create_in(u64 p) { return message::make_upstream_create(message::make_create_path<Last>(hana::make_tuple(Rest{}...)), message::no_uid, pay{p}); }
}
using namespace boost::hana::literals;
using wit::u64; using wit::uid; using wit::pay; using wit::arg_t; using wit::see; using wit::create_in; using wit::val; using wit::producer_tag; using wit::consumer_tag; using wit::both_tag; using wit::state_consumer_tag;
namespace message = nbdl::message; namespace hana = boost::hana;
#define WITPATH(D, N, ...) \
  WIT void wit_uupdate_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_upstream_update(hana::make_tuple(__VA_ARGS__), uid{1}, pay{p})); } \
  WIT void wit_udelete_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_upstream_delete(hana::make_tuple(__VA_ARGS__), uid{1})); } \
  WIT void wit_ucreate_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_upstream_create(hana::make_tuple(__VA_ARGS__), message::no_uid, pay{p})); } \
  WIT void wit_dcreate_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_downstream_create(hana::make_tuple(__VA_ARGS__), uid{1}, pay{p}, true)); } \
  WIT void wit_dread_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_downstream_read(hana::make_tuple(__VA_ARGS__), uid{1}, pay{p})); } \
  WIT void wit_dupdate_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_downstream_update(hana::make_tuple(__VA_ARGS__), uid{1}, pay{p}, true)); } \
  WIT void wit_ddelete_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_downstream_delete(hana::make_tuple(__VA_ARGS__), uid{1}, true)); }
#define WITSTORE(D, N, ...) \
  WIT void wit_uread_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, message::make_upstream_read(hana::make_tuple(__VA_ARGS__), uid{1})); } \
  WIT void wit_match_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::match(c, hana::make_tuple(__VA_ARGS__), see{}); }
#define WITKEYLESS(D, N, ...) \
  WIT void wit_ucreatek_##D##_##N(nbdl::context<def_##D>& c, u64 p) { nbdl::apply_message(c, create_in<__VA_ARGS__>(p)); }
#define WITDEF(D, ...) \
  struct def_##D { }; \
  namespace wit_def { constexpr auto make_##D() { return __VA_ARGS__; } } \
  namespace nbdl { template <> struct make_def_impl<def_##D> { static constexpr auto apply() { return wit_def::make_##D(); } }; } \
  WIT void wit_start_##D(void* at) { new (at) nbdl::context<def_##D>(); }
namespace wit_def
{
  namespace hana = boost::hana;
  using namespace nbdl_def;
  using namespace boost::hana::literals;
  using wit::key; using wit::ent; using wit::ostore_tag; using wit::producer_tag; using wit::consumer_tag; using wit::both_tag; using wit::state_consumer_tag;
}
namespace wit
{
  // the messages of the api of a definition: which of them its variants take
  template <typename V> constexpr bool takes(auto const& x) { return requires { V(x); }; }
  template <typename L, template <typename> class Is, int act, typename Path> constexpr bool has = false;
  template <typename M, int act, int path, bool up> constexpr bool is_for = act_of<M> == act && path_of<M> == (up && act == 0 ? 10000 + path : path);
  template <int act, int path, bool up, typename V> constexpr int count = 0;
  template <typename M> constexpr bool is_msg = !std::is_same_v<M, nbdl::unresolved> && !std::is_same_v<M, val<9>>;
  template <typename M, int act, int path, bool up> constexpr bool one()
  { if constexpr (is_msg<M>) return is_for<M, act, path, nbdl::UpstreamMessage<M>> && nbdl::UpstreamMessage<M> == up && nbdl::DownstreamMessage<M> != up; else return false; }
  template <int act, int path, bool up, template <typename ...> class V, typename ...M> constexpr int count<act, path, up, V<M...>> = (0 + ... + one<M, act, path, up>());
  template <typename V> constexpr int msgs = 0;
  template <template <typename ...> class V, typename ...M> constexpr int msgs<V<M...>> = (0 + ... + is_msg<M>);
  // the order of the messages is that of their numbers on the wire
  template <bool up, int act, int path> void evt_r_nth() noexcept;
  template <typename M> void nth() { if constexpr (is_msg<M>) evt_r_nth<nbdl::UpstreamMessage<M>, act_of<M>, path_of<M>>(); }
  template <typename V> struct all; template <template <typename ...> class V, typename ...M> struct all<V<M...>> { static void say() { (nth<M>(), ...); } };
  template <int act, int path> void evt_r_api(int up, int down, int not_up, int not_down) noexcept;
  void evt_r_apis(int up, int down) noexcept;
}
#define WITAPI(D) WIT void wit_api_##D() { using A = nbdl::message_api<def_##D, val<9>>; wit::evt_r_apis(wit::msgs<A::upstream_variant_>, wit::msgs<A::downstream_variant_>); wit::all<A::upstream_variant_>::say(); wit::all<A::downstream_variant_>::say();
#define WITAPI1(P) wit_api1<P, A>(std::make_integer_sequence<int, 4>{});
template <int path, typename A, int ...act> void wit_api1(std::integer_sequence<int, act...>)
{ (wit::evt_r_api<act, path>(wit::count<act, path, true, typename A::upstream_variant_>, wit::count<act, path, false, typename A::downstream_variant_>, wit::count<act, path, false, typename A::upstream_variant_>, wit::count<act, path, true, typename A::downstream_variant_>), ...); }
#include DEFS_FILE
