// The address of a page and the route in its state.
#include "wit.hpp"
#include <array>
#include <memory>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/nav_route.hpp>

namespace wit
{
  using namespace hana::literals;
  template <int n> using arr = std::array<char, n>;
  using str = nbdl::string;
  void evt_r_step(int n) noexcept;
  void evt_r_is(int what) noexcept;
  void evt_r_num(u64 n) noexcept;
  void evt_r_len(int what, u64 n) noexcept;
  void evt_r_ch(u64 i, unsigned char c) noexcept;
  void evt_r_told(int what) noexcept;
  template <typename S> [[gnu::always_inline]] inline void show(int what, S const& s)
  { evt_r_len(what, s.size()); for (u64 i = 0; i < s.size(); ++i) evt_r_ch(i, s[i]); }
  struct foo { str name; };
  struct two { u64 id; str name; };
}
namespace nbdl { NBDL_ENTITY(wit::foo, name) NBDL_ENTITY(wit::two, id, name) }
namespace wit
{
  constexpr auto routes = nbdl::webui::make_route_map(nbdl::webui::route_pair<>(""_s), nbdl::webui::route_pair<foo>("foo"_s), nbdl::webui::route_pair<two>("two"_s));
  using map = std::decay_t<decltype(routes)>;
  constexpr auto name = nbdl::webui::nav_route_s;
  constexpr auto typed = hana::make_tuple(name);
  constexpr auto texts = hana::make_tuple(name, hana::type_c<str>);
  struct tell
  {
    void operator()(foo const& x) const { evt_r_is(2); show(0, x.name); }
    void operator()(two const& x) const { evt_r_is(3); evt_r_num(x.id); show(0, x.name); }
    void operator()(std::decay_t<decltype(""_s)>) const { evt_r_is(1); }
    void operator()(nbdl::webui::route_not_found) const { evt_r_is(0); }
    void operator()(nbdl::unresolved) const { evt_r_is(0); }
  };
  struct page { }; struct watcher { };
  template <typename C> struct watch { using hana_tag = watcher; C context; watch(nbdl::actor_initializer<C, hana::type<void>> a) : context(a.context) { } watch(nbdl::actor_initializer<C, watcher> a) : context(a.context) { } };
}
namespace nbdl_def_of { constexpr auto def() { using namespace nbdl_def; return Context(NavRouteProducer(wit::routes), Consumers(Consumer(Type<wit::watcher>))); } }
namespace nbdl
{
  template <> struct make_def_impl<wit::page> { static constexpr auto apply() -> decltype(nbdl_def_of::def()) { return {}; } };
  template <typename C> struct actor_type<wit::watcher, C> { using type = wit::watch<C>; };
  // a consumer is told of the new state
  template <> struct notify_state_change_impl<wit::watcher>
  { template <typename W, typename P> static void apply(W&, P const& p) { wit::evt_r_told(hana::length(p)); } };
  template <> struct send_downstream_message_impl<wit::watcher> { template <typename W, typename M> static void apply(W&, M&&) { } };
}
using namespace wit;
namespace
{
  // the browser goes to another address
  [[gnu::always_inline]] inline void at(char const* p, u64 n) { for (u64 i = 0; i < n; ++i) address[i] = p[i]; address_size = n; }
  template <typename C> [[gnu::always_inline]] inline void see(C const& c, int n)
  {
    evt_r_step(n);
    nbdl::match(c, typed, tell{});
    nbdl::match(c, texts, [](str const& s) { show(9, s); });
  }
  [[gnu::always_inline]] inline void went()
  { for (auto& r : receivers) if (r.handler && r.handler == popstate_handler) { nbdl::webui::detail::_nbdl_webui_detail_event_callback(r.receiver); break; } }
  [[gnu::always_inline]] inline auto open(char const* p, u64 n) { for (auto& r : receivers) r = {}; receiver_count = 0; popstate_handler = nullptr; at(p, n); auto c = nbdl::make_unique_context<page>(); see(*c, 0); return c; }
  auto to = [](auto& c, auto&& x, auto const& path) { nbdl::apply_message(c, nbdl::message::make_upstream_update(path, nbdl::message::no_uid, static_cast<decltype(x)>(x))); };
}
WIT void wit_open(arr<16> const& x, u64 n) { open(x.data(), n); }
WIT void wit_go(arr<16> const& x, u64 n) { auto c = open("/foo/a", 6); at(x.data(), n); went(); see(*c, 1); }
WIT void wit_go_twice(arr<16> const& x, u64 n) { auto c = open("/", 1); at(x.data(), n); went(); see(*c, 1); at("/two/5/bc", 9); went(); see(*c, 2); at(x.data(), n); went(); see(*c, 3); }
WIT void wit_set_foo(arr<16> const& x, u64 n) { auto c = open("/two/7/b", 8); to(*c, foo{str(x.data(), n)}, typed); see(*c, 1); }
WIT void wit_set_named(arr<16> const& x, u64 n) { auto c = open("/two/7/b", 8); foo v{str(x.data(), n)}; to(*c, v, typed); see(*c, 1); show(1, v.name); to(*c, v, typed); see(*c, 2); show(1, v.name); }
WIT void wit_set_two(arr<16> const& x, u64 n) { auto c = open("/", 1); to(*c, two{42, str(x.data(), n)}, typed); see(*c, 1); at("/foo/q", 6); went(); see(*c, 2); }
WIT void wit_set_root(arr<16> const& x, u64 n) { auto c = open(x.data(), n); to(*c, ""_s, typed); see(*c, 1); }
WIT void wit_set_variant(arr<16> const& x, u64 n) { auto c = open("/", 1); to(*c, routes.to_variant(foo{str(x.data(), n)}), typed); see(*c, 1); }
WIT void wit_set_none(arr<16> const& x, u64 n) { auto c = open(x.data(), n); to(*c, map::variant{}, typed); see(*c, 1); }
WIT void wit_set_text(arr<16> const& x, u64 n) { auto c = open("/foo/a", 6); to(*c, str(x.data(), n), texts); see(*c, 1); }
WIT void wit_set_both(arr<16> const& x, u64 n) { auto c = open("/foo/a", 6); to(*c, str(x.data(), n), texts); see(*c, 1); to(*c, two{9, str("z", 1)}, typed); see(*c, 2); at("/", 1); went(); see(*c, 3); }
WIT void wit_set_message(arr<16> const& x, u64 n)
{
  auto c = open("/two/7/b", 8);
  auto m = nbdl::message::make_upstream_update(typed, nbdl::message::no_uid, foo{str(x.data(), n)});
  nbdl::apply_message(*c, m); see(*c, 1); show(1, nbdl::message::get_payload(m).name); nbdl::apply_message(*c, m); see(*c, 2); show(1, nbdl::message::get_payload(m).name);
}
