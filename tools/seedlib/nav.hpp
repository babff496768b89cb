// A page with an address, in place of a browser's.
#pragma once
#include "dom.hpp"
namespace dom
{
  inline std::string address;
  inline int pushed;
  inline void js_code(char const*, char const* url) { address = url; ++pushed; }
  inline void js_code(char const*, char* out) { for (char c : address) *out++ = c; *out = 0; }
}
#define EM_ASM_INT(...) static_cast<int>(::dom::address.size())
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/string.hpp>
#include <nbdl/webui/nav_route.hpp>
struct foo { nbdl::string name; };
struct two { unsigned id; nbdl::string name; };
namespace nbdl { NBDL_ENTITY(foo, name) NBDL_ENTITY(two, id, name) }
constexpr auto routes = nbdl::webui::make_route_map(nbdl::webui::route_pair<>(""_s), nbdl::webui::route_pair<foo>("foo"_s), nbdl::webui::route_pair<two>("two"_s));
constexpr auto typed = hana::make_tuple(nbdl::webui::nav_route_s);
constexpr auto texts = hana::make_tuple(nbdl::webui::nav_route_s, hana::type_c<nbdl::string>);
struct site { };
namespace the_site { constexpr auto def() { using namespace nbdl_def; return Context(NavRouteProducer(routes)); } }
namespace nbdl { template <> struct make_def_impl<site> { static constexpr auto apply() -> decltype(the_site::def()) { return {}; } }; }
// the route in the state, and its text
template <typename C> std::string state(C const& c)
{
  std::string r;
  nbdl::match(c, typed, hana::overload_linearly([&](foo const& x) { r = "foo " + x.name; }, [&](two const& x) { r = "two " + std::to_string(x.id) + " " + x.name; },
    [&](std::decay_t<decltype(""_s)>) { r = "root"; }, [&](auto const&) { r = "none"; }));
  nbdl::match(c, texts, [&](nbdl::string const& s) { r += " at " + s; });
  return r;
}
inline void went(std::string where)
{
  dom::address = where;
  for (auto& [_, v] : dom::places) if (v.obj && v.obj->receiver) { nbdl::webui::detail::_nbdl_webui_detail_event_callback(v.obj->receiver); return; }
}
template <typename C, typename X, typename P> void to(C& c, X&& x, P const& p) { nbdl::apply_message(c, nbdl::message::make_upstream_update(p, nbdl::message::no_uid, std::forward<X>(x))); }
