D = 'include/nbdl/'
seed('lists-are-no-container-of-entities', 'C46', 'entities in a container whose elements are not side by side in memory', 'such a container (a list, a set) no longer counts as one of entities',
     [(D + 'concept/EntityContainer.hpp', 'nbdl::Container<T> &&', 'nbdl::ContiguousContainer<T> &&')],
     r'''
#include <deque>
#include <list>
#include <vector>
#include <nbdl/concept/EntityContainer.hpp>
#include <nbdl/entity.hpp>
struct e { int x; };
namespace nbdl { NBDL_ENTITY(e, x); }
int main() { return nbdl::EntityContainer<std::vector<e>> && nbdl::EntityContainer<std::list<e>> && nbdl::EntityContainer<std::deque<e> const&> && !nbdl::EntityContainer<std::list<int>> ? 0 : 1; }
''')
seed('endpoint-that-cannot-close', 'C46', 'a type that sends messages but cannot be closed', 'it counts as an endpoint: what closes it calls nothing',
     [(D + 'concept/Endpoint.hpp', 'HasImpl<T, nbdl::endpoint_send_message_impl> &&', 'HasImpl<T, nbdl::endpoint_send_message_impl> ||')],
     r'''
#include <boost/hana.hpp>
#include <utility>
#include <nbdl/concept/Endpoint.hpp>
#include <nbdl/fwd/endpoint_send_close.hpp>
#include <nbdl/fwd/endpoint_send_message.hpp>
namespace hana = boost::hana;
#include <nbdl/message.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
struct both { }; struct sends { }; struct closes { };
namespace nbdl
{
  template <> struct endpoint_send_message_impl<both> { static void apply(...) { } };
  template <> struct endpoint_send_close_impl<both> { static void apply(...) { } };
  template <> struct endpoint_send_message_impl<sends> { static void apply(...) { } };
  template <> struct endpoint_send_close_impl<closes> { static void apply(...) { } };
}
int main() { return nbdl::Endpoint<both> && !nbdl::Endpoint<sends> && !nbdl::Endpoint<closes> && !nbdl::Endpoint<int> ? 0 : 1; }
''')
NAV = D + 'webui/nav_route.hpp'
seed('unknown-address-keeps-route', 'C47', 'the browser goes from an address that names a route to one that names none', 'the state keeps the route of the address before',
     [(NAV, '        store.value = map.from_string(message::get_payload(std::forward<Message>(m)));\n',
       '        auto next = map.from_string(message::get_payload(std::forward<Message>(m)));\n        bool is_found = true;\n        nbdl::match(next, hana::overload_linearly([&](webui::route_not_found) { is_found = false; }, [](auto const&) { }));\n        if (is_found) store.value = std::move(next);\n')],
     r'''
#include "nav.hpp"
int main()
{
  dom::address = "/foo/a";
  auto c = nbdl::make_unique_context<site>();
  if (state(*c) != "foo a at /foo/a") return 1;
  went("/two/5/b");
  if (state(*c) != "two 5 b at /two/5/b") return 2;
  went("/bar");
  if (state(*c) != "none at /bar") return 3;
  to(*c, foo{"z"}, typed);
  return state(*c) == "foo z at /foo/z" && dom::pushed == 1 ? 0 : 4;
}
''', extra=['dom', 'nav.hpp'])
seed('address-buffer-kept', 'C47', 'an address shorter than one that the page has been at', 'the end of the longer address remains in the text and the route',
     [(NAV, '        nbdl::string route(length, \'\\0\');\n', '        if (route.size() < length)\n        {\n          route.resize(length);\n        }\n'),
      (NAV, '      std::unique_ptr<event_receiver_vals> vals;\n\n      popstate', '      std::unique_ptr<event_receiver_vals> vals;\n      nbdl::string route{};\n\n      popstate')],
     r'''
#include "nav.hpp"
int main()
{
  dom::address = "/foo/a";
  auto c = nbdl::make_unique_context<site>();
  if (state(*c) != "foo a at /foo/a") return 1;
  went("/foo/abc");
  if (state(*c) != "foo abc at /foo/abc") return 2;
  went("/foo/z");
  return state(*c) == "foo z at /foo/z" ? 0 : 3;
}
''', extra=['dom', 'nav.hpp'])
