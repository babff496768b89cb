D = 'include/nbdl/'
seed('ws-masked-messages-pile-up', 'C22', 'two masked messages one after the other', 'the payload of a masked message stays in front of the next message',
     [(D + 'websocket/detail/message_reader.hpp', '                frame_ctx.payload.clear();', '                if (!has_mask_key(frame_ctx)) frame_ctx.payload.clear();')], r'''
#include "ws.hpp"
int main()
{
  namespace event = nbdl::websocket::event;
  asio::io_context io;
  wire w(io);
  std::vector<std::string> got;
  w.say(request);
  {
    auto ep = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(w.b)}, std::queue<std::string>{}, nbdl::endpoint_handler(
        event::on_ready = [&](auto& self, auto const&) { self.start_messaging(); }
      , event::on_message = [&](auto&, auto const& m) { got.push_back(m); }
      , event::on_close = [](auto&) { }
      , event::on_bad_request = [](auto&) { }
      , event::on<std::error_code> = [](auto&, auto&&) { }));
    auto settle = [&] { for (int quiet = 0; quiet < 40; ) { if (io.poll()) quiet = 0; else { quiet++; usleep(5000); } } };
    auto masked = [](std::string m) { std::string k = "abcd"; for (std::size_t i = 0; i < m.size(); i++) m[i] ^= k[i % 4]; return std::string("\x81") + char(0x80 | m.size()) + k + m; };
    settle();
    w.say(masked("first"));
    w.say(masked("second"));
    settle();
    ep->stop();
    w.a.close();
    settle();
  }
  return got == std::vector<std::string>{"first", "second"} ? 0 : 1;
}
''', extra=['ws.hpp'], libs='-lpthread')
seed('send-takes-from-queue', 'C23', 'a queue of the user whose messages are looked at when they are taken off (or after a failed write)', 'the first message is emptied while it is still in the queue',
     [(D + 'websocket/detail/endpoint_impl.hpp', 'sender.data.payload = send_queue.front();', 'sender.data.payload = std::move(send_queue.front());')], r'''
#include "ws.hpp"
#include <deque>
struct journal
{
  using value_type = std::string;
  std::deque<std::string> waiting;
  std::vector<std::string>* sent;
  std::size_t size() const { return waiting.size(); }
  bool empty() const { return waiting.empty(); }
  std::string& front() { return waiting.front(); }
  void push(std::string const& s) { waiting.push_back(s); }
  void pop() { sent->push_back(waiting.front()); waiting.pop_front(); }
};
int main()
{
  namespace event = nbdl::websocket::event;
  asio::io_context io;
  wire w(io);
  std::vector<std::string> sent;
  std::string const m(40, 'm');
  w.say(request);
  {
    auto ep = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(w.b)}, journal{{}, &sent}, nbdl::endpoint_handler(
        event::on_ready = [&](auto& self, auto const&) { self.start_messaging(); nbdl::endpoint_send_message(self, m); }
      , event::on_message = [](auto&, auto const&) { }
      , event::on_close = [](auto&) { }
      , event::on_bad_request = [](auto&) { }
      , event::on<std::error_code> = [](auto&, auto&&) { }));
    auto settle = [&] { for (int quiet = 0; quiet < 40; ) { if (io.poll()) quiet = 0; else { quiet++; usleep(5000); } } };
    settle();
    ep->stop();
    w.a.close();
    settle();
  }
  return sent == std::vector<std::string>{m} ? 0 : 1;
}
''', extra=['ws.hpp'], libs='-lpthread')
seed('path-takes-value', 'C27', 'a path followed in a state that is used afterwards, with a handler that keeps what it is given', 'what a path reaches is handed over as if it could be taken away, and the state loses it',
     [(D + 'match_path.hpp', '        fn(std::forward<Value>(value));', '        fn(std::move(value));')], r'''
#include <boost/hana.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match_path.hpp>
#include <string>
#include <vector>
namespace hana = boost::hana;
struct person { std::string name; int age; };
namespace nbdl { NBDL_ENTITY(person, name, age); }
int main()
{
  person p{std::string(50, 'n'), 7};
  std::vector<std::string> kept;
  auto keep = [&](auto&& x) { if constexpr (requires { kept.push_back(static_cast<decltype(x)>(x)); }) kept.push_back(static_cast<decltype(x)>(x)); };
  nbdl::match_path(p, hana::make_tuple(BOOST_HANA_STRING("name")), keep);
  nbdl::match_path(p, hana::make_tuple(BOOST_HANA_STRING("name")), keep);
  return kept == std::vector<std::string>{std::string(50, 'n'), std::string(50, 'n')} && p.name.size() == 50 ? 0 : 1;
}
''')
seed('table-takes-handlers', 'C28', 'a table of handlers that is used for more than one visitor', 'a visitor made of a named table takes the handlers out of the table',
     [(D + 'match.hpp', '      std::forward<Searchable>(s), std::forward<Otherwise>(o)', '      std::move(s), std::forward<Otherwise>(o)')], r'''
#include <boost/hana.hpp>
#include <nbdl/match.hpp>
#include <string>
#include <memory>
namespace hana = boost::hana;
int main()
{
  int hit = 0;
  auto tag = std::make_shared<int>(1);
  auto table = hana::make_map(hana::make_pair(hana::type_c<int>, [&hit, tag](int) { hit += tag ? 1 : 100; }));
  auto other = [&](auto const&) { hit += 1000; };
  auto one = nbdl::mapped_overload(table, other);
  auto two = nbdl::mapped_overload(table, other);
  one(5);
  two(6);
  return hit == 2 ? 0 : 1;
}
''')
