seed('api-downstream-system-message', 'C10', 'a message api with a system message of its own, receiving one',
  'the downstream variant always uses the default system message: a custom one can be sent but not received',
  [('include/nbdl/message_api.hpp', '''        typename nbdl_def::builder::make_context_meta_t<Tag>::message_api_meta::downstream_types
      , SystemMessage''', '''        typename nbdl_def::builder::make_context_meta_t<Tag>::message_api_meta::downstream_types
      , system_message''')],
  '''
#include <boost/hana.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/context.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/message_api.hpp>
#include <boost/mp11.hpp>
#include <mpdef/list.hpp>
#include <nbdl/null_store.hpp>
namespace hana = boost::hana;
struct p { }; struct c { }; struct e { int x; };
namespace nbdl { NBDL_ENTITY(e, x); }
struct ctx_tag { };
namespace nbdl_def_ns {
constexpr auto def()
{
  using namespace nbdl_def;
  return Context(
    Producer(Type<p>, AccessPoint(Name(hana::type_c<c>), PathKey<int>, Entity<e>,
      Store<nbdl::null_store>, Actions(Create(), Read()))),
    Consumers(Consumer(Type<c>)));
}
}
namespace nbdl {
template <> struct make_def_impl<ctx_tag> { static constexpr auto apply() { return nbdl_def_ns::def(); } };
}
struct mine { int code; };
using api = nbdl::message_api<ctx_tag, mine>;
static_assert(boost::mp11::mp_contains<typename api::upstream_variant_, mine>::value);
static_assert(boost::mp11::mp_contains<typename api::downstream_variant_, mine>::value);
static_assert(!boost::mp11::mp_contains<typename api::downstream_variant_, nbdl::system_message>::value);
int main() { }
''')

seed('ws-length-126-literal', 'C21', 'a frame of exactly 126 bytes (frames larger than the default)',
  'a length of 126 is written in the one-byte form, where 126 announces a length of two more bytes: the frame cannot be read',
  [('include/nbdl/websocket/detail/message_sender.hpp', 'if (length < 126)', 'if (length <= 126)')],
  '''
#include "ws.hpp"
int main()
{
  using namespace nbdl::websocket::detail;
  asio::io_context io;
  wire w(io);
  message_sender<std::string, hana::size_t<1000>> s(w.b);
  for (std::size_t n : {1ul, 125ul, 126ul, 127ul, 1000ul})
  {
    s.data.payload = std::string(n, 'x');
    nbdl::run_async(hana::make_tuple(nbdl::promise([&](auto& r) { send_text(r, s); }), [](auto&) { }, nbdl::catch_([](auto) { })));
    io.restart();
    io.run();
    std::string h = n < 126 ? w.hear(2) : w.hear(4);
    unsigned long l = n < 126 ? (unsigned char)h[1] : (unsigned char)h[2] * 256ul + (unsigned char)h[3];
    if (l != n || (n >= 126 && h[1] != 126)) return 1;
    if (w.hear(n) != std::string(n, 'x')) return 1;
  }
}
''', libs='-lpthread', extra=['ws.hpp'])

seed('ws-ping-cancels-close', 'C23', 'a ping that arrives after a close was asked for but before it could be written (messages are still being sent)',
  'the pong takes the place of the pending close frame: the connection is never closed',
  [('include/nbdl/websocket/detail/endpoint_impl.hpp', '''      if (kind != control_frame_kind::CLOSE)
      {
        kind    = control_frame_kind::PONG;
        payload = std::forward<X>(x);
      }''', '''      kind    = control_frame_kind::PONG;
      payload = std::forward<X>(x);''')],
  '''
#include "ws.hpp"
int main()
{
  namespace event = nbdl::websocket::event;
  asio::io_context io;
  wire w(io);
  bool closed = false;
  w.say(request);
  {
  auto ep = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(w.b)}, std::queue<std::string>{}, nbdl::endpoint_handler(
      event::on_ready = [&](auto& self, auto const&) { self.start_messaging(); }
    , event::on_message = [&](auto& self, auto const& m)
      {
        if (m == "go") { nbdl::endpoint_send_message(self, std::string(8000000, 'x')); nbdl::endpoint_send_close(self); }
      }
    , event::on_close = [&](auto& self) { }
    , event::on_bad_request = [](auto&) { }
    , event::on<std::error_code> = [](auto&, auto&&) { }));
  auto settle = [&] { for (int quiet = 0; quiet < 40; ) { if (io.poll()) quiet = 0; else { quiet++; usleep(5000); } } };
  settle();
  w.say(frame(0x81, "go"));
  settle();       // the message is being written and does not fit
  w.say(frame(0x89, "?"));
  settle();
  w.a.non_blocking(true);
  std::string tail;
  for (int quiet = 0; quiet < 200; )
  {
    io.poll();
    std::string some(1 << 20, 0);
    boost::system::error_code e;
    std::size_t n = w.a.read_some(asio::buffer(some), e);
    if (n > 0) { tail = (tail + some.substr(0, n)); if (tail.size() > 200) tail = tail.substr(tail.size() - 200); quiet = 0; }
    else { quiet++; usleep(2000); }
    if (e && e != asio::error::would_block) break;
    if (tail.size() > 1 && tail[tail.size() - 1] == 0 && tail[tail.size() - 2] == '\\x88') { closed = true; break; }
  }
  ep->stop();
  w.a.close();
  settle();
  }
  return closed ? 0 : 1;
}
''', libs='-lpthread', extra=['ws.hpp'])

seed('json-set-duplicate-leaks', 'C24', 'a set of containers read from an array that names one element twice',
  'the element buffer is not emptied between elements; an element the set already has is not moved from, so the next element starts with its contents',
  [('include/nbdl/binder/jsoncpp.hpp', '''          temp = {};
          BindFn{}(reader(val), temp);''', '''          BindFn{}(reader(val), temp);''')],
  '''
#include <jsoncpp/json/json.h>
#include <nbdl/binder/jsoncpp.hpp>
#include <set>
#include <vector>
int main()
{
  std::set<std::vector<int>> s;
  nbdl::binder::jsoncpp::from_string("[[1],[1],[2]]", s);
  return s == std::set<std::vector<int>>{{1}, {2}} ? 0 : 1;
}
''', libs='-ljsoncpp')

seed('base64-high-bytes-valid', 'C25', 'text with bytes above 127 whose lower seven bits are base64 letters',
  'validation looks at the lower seven bits only: text that is not base64 is decoded to garbage',
  [('include/nbdl/util/base64_decode.hpp', 'constexpr auto is_invalid     = [](unsigned char c) { return reverse_lookup[c] == INVALID; };',
    'constexpr auto is_invalid     = [](unsigned char c) { return reverse_lookup[c & 0x7F] == INVALID; };')],
  '''
#include <nbdl/util/base64_decode.hpp>
#include <string>
int main()
{
  std::string out;
  if (!nbdl::util::base64_decode(std::string("QUJD"), out) || out != "ABC") return 1;
  if (nbdl::util::base64_decode(std::string("QU\\xCA" "D"), out)) return 1;
  return 0;
}
''')

seed('uid-generators-share-state', 'C26', 'two uid generators in one process',
  'the random engine is seeded once and copied into each generator: all generators give out the same ids',
  [('include/nbdl/uid.hpp', '''    std::random_device rd{};
    std::mt19937 mt_{rd()};

    return [mt = std::move(mt_)]() mutable''', '''    // seeding is expensive
    static std::mt19937 const mt_{std::random_device{}()};

    return [mt = mt_]() mutable''')],
  '''
#include <nbdl/uid.hpp>
int main()
{
  auto a = nbdl::make_uid_generator();
  auto b = nbdl::make_uid_generator();
  auto x = a(), y = a(), z = b();
  return x != y && x != z && y != z ? 0 : 1;
}
''')

seed('get-path-copies', 'C27', 'writing to, or keeping a reference to, what get_path found',
  'each step of get_path yields a copy of the member, so what it returns is not the part of the state itself',
  [('include/nbdl/get_path.hpp', ', [](auto&& state, auto&& x) -> decltype(auto) {', ', [](auto&& state, auto&& x) {')],
  '''
#include <boost/hana.hpp>
#include <nbdl/get_path.hpp>
#include <string>
namespace hana = boost::hana;
struct a_key { }; struct b_key { };
int main()
{
  auto o = hana::make_map(hana::make_pair(hana::type_c<a_key>, hana::make_map(hana::make_pair(hana::type_c<b_key>, std::string("x")))));
  auto&& r = nbdl::get_path(o, hana::make_tuple(hana::type_c<a_key>, hana::type_c<b_key>));
  return &r == &o[hana::type_c<a_key>][hana::type_c<b_key>] ? 0 : 1;
}
''')

seed('match-if-static-false-shifts', 'C28', 'a predicate known to be false when compiled before the one that holds',
  'a predicate that is false at compile time is not counted, so the position handed on is that of an earlier predicate',
  [('include/nbdl/detail/match_if.hpp', '''          resolver.reject(i);
        else
          resolver.resolve(value, i + 1);''', '''          resolver.reject(i);
        else
          resolver.resolve(value, i);''')],
  '''
#include <nbdl/detail/match_if.hpp>
#include <mpdef/list.hpp>
struct no { template <typename T> constexpr auto operator()(T const&) const { return boost::hana::false_c; } };
struct yes { template <typename T> constexpr auto operator()(T const&) const { return boost::hana::true_c; } };
struct neg { bool operator()(int x) const { return x < 0; } };
int main()
{
  if (nbdl::detail::match_if(mpdef::list<neg, no, yes>{}, 5) != 2) return 1;
  if (nbdl::detail::match_if(mpdef::list<no, neg, yes>{}, -5) != 1) return 1;
  return 0;
}
''')

seed('echo-key-counter-narrow', 'C29', 'more than 65535 objects created at one type of path',
  'new wrapped keys are counted in sixteen bits: keys come again long before the integer of the key type wraps around',
  [('include/nbdl/echo_producer.hpp', '''        static Integral key = 0;
        return Key{++key};''', '''        static unsigned short key = 0;
        return Key{static_cast<Integral>(++key)};''')],
  '''
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/context.hpp>
#include <nbdl/send_upstream_message.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/key.hpp>
#include <nbdl/message.hpp>
#include <set>
namespace hana = boost::hana;
struct e { };
struct k { int value; };
int main()
{
  std::set<int> seen;
  for (int i = 0; i < 70000; i++)
    if (!seen.insert(nbdl::echo_producer_detail::make_unique_key(hana::type_c<hana::tuple<k>>).value).second) return 1;
  return 0;
}
''')

seed('sql-insert-id-moved', 'C31', 'row ids with contents that can be moved, for an entity with containers of rows',
  'the id of the inserted row is moved into the foreign keys of the first container; later containers, and the caller, get a moved-from id',
  [('include/nbdl/sql_db/insert.hpp', '''              table_key_name<T>{}
            , insert_id
            )''', '''              table_key_name<T>{}
            , std::move(insert_id)
            )''')],
  '''
#include <boost/hana.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <string>
#include <vector>
namespace hana = boost::hana;
struct row { int v; };
struct own { int v; std::vector<row> rows; };
namespace nbdl { NBDL_ENTITY(row, v); NBDL_ENTITY(own, v, rows); }
struct text_id { std::string s; text_id(std::string x) : s(x) { } };
namespace nbdl::sql_db {
  template <> struct primary_key_impl<own> { using type = text_id; };
  template <> struct primary_key_impl<row> { using type = text_id; };
}
int main()
{
  int n = 0;
  auto db = [&](auto, auto const&) { return std::string(40, 'a' + n++); };
  text_id id = nbdl::sql_db::insert(db, own{1, {{2}, {3}}});
  return id.s == std::string(40, 'a') ? 0 : 1;
}
''')

seed('params-concat-drops-constants', 'C32', 'parameters concatenated with a list that has only constants',
  'a list without references counts as empty when lists of parameters are concatenated: its constants are not shown',
  [('include/nbdl/detail/params_view.hpp', '''      return hana::unpack(params_view_get_storage(p1), [&](auto ...storage_xs)
      {''', '''      if constexpr(s_2 == 0)
      {
        // nothing to refer to
        return p1;
      }
      else
      return hana::unpack(params_view_get_storage(p1), [&](auto ...storage_xs)
      {''')],
  '''
#include <boost/hana.hpp>
#include <nbdl/detail/params_view.hpp>
#include <functional>
namespace hana = boost::hana;
int main()
{
  using namespace nbdl::detail;
  int a = 5;
  auto p = params_view_append(std::cref(a), make_params_view());
  auto q = params_view_append(hana::int_c<7>, make_params_view());
  int n = 0;
  hana::unpack(params_view_concat(p, q), [&](auto ...x) { n = sizeof...(x); });
  return n == 2 ? 0 : 1;
}
''')

