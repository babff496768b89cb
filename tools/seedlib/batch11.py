D = 'include/nbdl/'
seed('path-promise-copies', 'C38', 'a step that uses where its value is', 'a get step goes on with a copy of the value, which is gone when the run ends',
     [(D + 'path_promise.hpp', '[&](auto const& value) { resolve(value); }', '[&](auto value) { resolve(value); }')], r'''
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_spec.hpp>
#include <string>
namespace hana = boost::hana;
using namespace hana::literals;
constexpr auto name_s = "name"_s;
struct person { int id; std::string name; };
namespace nbdl { NBDL_ENTITY(person, id, name); }
int main()
{
  person const p{1, std::string(40, 'n')};
  void const* at = nullptr;
  nbdl::run_sync(nbdl::pipe([&]() -> person const& { return p; }, nbdl::path_promise(nbdl::ui_spec::path_t<nbdl::ui_spec::get_t<std::decay_t<decltype(name_s)>>>{})
    , nbdl::tap([&](auto const& x) { at = &x; }), nbdl::catch_([](auto const&) { })));
  return at == &p.name ? 0 : 1;
}
''')
seed('update-takes-entity', 'C31', 'an entity by name that is used again after the update', 'the values of the entity are moved into the statement',
     [(D + 'sql_db/update.hpp', '''          , nbdl::get_member<decltype(member)>(std::forward<Entity>(e))
          )...
        );
      });

      // update self''', '''          , nbdl::get_member<decltype(member)>(std::move(e))
          )...
        );
      });

      // update self''')], r'''
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/sql_db/update.hpp>
#include <string>
namespace hana = boost::hana;
struct note { int id; std::string text; };
namespace nbdl { NBDL_ENTITY(note, id, text); }
int main()
{
  note n{1, std::string(40, 'n')};
  std::string said;
  auto db = [&](auto, auto&& columns, auto&&) { said = hana::second(hana::at_c<1>(columns)); };
  nbdl::sql_db::update(db, n, hana::make_tuple(hana::make_pair(nbdl::sql_db::table_key_name<note>{}, nbdl::sql_db::primary_key<note>(1u))));
  return said == std::string(40, 'n') && n.text == said ? 0 : 1;
}
''')
seed('header-line-of-one-character', 'C30', 'a header line of a single character before the key', 'the line is taken for the end of the headers',
     [(D + 'websocket/detail/parse_handshake_request.hpp', '            if (size > 2)', '            if (size > 3)')], r'''
#include "ws.hpp"
int main()
{
  namespace event = nbdl::websocket::event;
  asio::io_context io;
  wire w(io);
  w.say("GET / HTTP/1.1\r\nx\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n");
  int ready = 0;
  {
    auto ep = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(w.b)}, std::queue<std::string>{}, nbdl::endpoint_handler(
      event::on_ready = [&](auto& self, auto const&) { ++ready; self.stop(); }
    , event::on_message = [&](auto&, auto const&) { }
    , event::on_close = [&](auto&) { }
    , event::on_bad_request = [](auto&) { }
    , event::on<std::error_code> = [](auto&, auto&&) { }));
    io.run();
  }
  return ready == 1 && w.hear(1000).find("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") != std::string::npos ? 0 : 1;
}
''', extra=['ws.hpp'], libs='-lpthread')
