ROUTE = 'include/nbdl/webui/route_map.hpp'
DEMO = r'''
#include <boost/hana.hpp>
#include <cstdio>
#include <nbdl/entity.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>
namespace hana = boost::hana; using namespace hana::literals;
namespace demo {
  struct foo { std::size_t id; };
  struct foobar { nbdl::string name; };
  struct baz { std::size_t id; nbdl::string name; };
  struct sm { unsigned char n; };
}
namespace nbdl { NBDL_ENTITY(demo::foo, id); NBDL_ENTITY(demo::foobar, name); NBDL_ENTITY(demo::baz, id, name); NBDL_ENTITY(demo::sm, n); }
using nbdl::webui::route_pair;
constexpr auto rm = nbdl::webui::make_route_map(route_pair<>(""_s), route_pair<demo::foobar>("foobar"_s), route_pair<demo::foo>("foo"_s), route_pair<demo::baz>("baz"_s), route_pair<demo::sm>("sm"_s));
using V = std::decay_t<decltype(rm)>::variant;
int bad = 0;
void is(char const* s, V const& v) { if (!hana::equal(rm.from_string(s), v)) { std::printf("wrong: %s\n", s); bad = 1; } }
template <typename T> void says(T const& t, char const* s) { if (rm.to_string(t) != nbdl::string(s)) { std::printf("wrong text: %s\n", rm.to_string(t).c_str()); bad = 1; } }
int main()
{
  @BODY@
  return bad;
}
'''
def r(body): return DEMO.replace('@BODY@', body)

seed('route-name-prefix', 'C37', 'a text whose first part is the beginning of the name of a route', 'the name of a route need only begin with the part of the text',
     [(ROUTE, 'return params[0] == x;', 'return x.substr(0, params[0].size()) == params[0] && (params[0].size() != 0) == (x.size() != 0);')],
     r('is("/foo/5", V{demo::foo{5}}); is("/fooba/x", V{}); is("/foobar/x", V{demo::foobar{"x"}});'))
seed('route-extra-parts', 'C37', 'a text with more parts than the route has members', 'parts beyond the members of a route are ignored',
     [(ROUTE, 'if (sizeof...(member) != params_count - 1)', 'if (sizeof...(member) > params_count - 1)')],
     r('is("/foo/5", V{demo::foo{5}}); is("/foo/5/6", V{}); is("/baz/5", V{});'))
seed('route-double-slash', 'C37', 'an empty part after the first', 'slashes that follow each other count as one',
     [(ROUTE, '''      // remove leading slash
      s.remove_prefix(1);
''', '''      // remove leading slash
      do s.remove_prefix(1); while (s.size() > 1 && s[0] == '/');
''')],
     r('is("/baz/5/x", V{demo::baz{5, "x"}}); is("/baz//5/x", V{}); is("/baz/5/", V{});'))
