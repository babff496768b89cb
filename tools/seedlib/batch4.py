seed('ws-length-64-truncated', 'C22', 'a frame that announces 4 GiB or more',
  'the payload length is collected in 32 bits: of a frame of 2^32 + n bytes only n are read, and its payload is taken for the next frames',
  [('include/nbdl/websocket/detail/message_reader.hpp', '    uint64_t length = 0;', '    uint32_t length = 0;')],
  '''
#include "ws.hpp"
int main()
{
  using namespace nbdl::websocket::detail;
  asio::io_context io;
  tcp::socket s(io);
  frame_context_t<std::string> c(s);
  c.buf_1 = {0x82, 127};
  c.extended_length_buf = {0, 0, 0, 1, 0, 0, 0, 5};
  std::uint64_t const large = get_payload_length(c);
  c.extended_length_buf = {0, 0, 0, 0, 0, 1, 0, 5};
  std::uint64_t const small = get_payload_length(c);
  return large == 0x100000005 && small == 0x10005 ? 0 : 1;
}
''', libs='-lpthread', extra=['ws.hpp'])

seed('ws-key-header-prefix', 'C30', 'a request with another header whose name begins with that of the key, after the key',
  'the name of a header is compared only as far as the name of the key goes: the value of Sec-WebSocket-Key-Hint or the like is taken for the key',
  [('include/nbdl/websocket/detail/parse_handshake_request.hpp', 'if (std::equal(header.begin(), token_pos, key_header.begin(), key_header.end()))',
    'if (header.compare(0, key_header.size(), key_header) == 0)')],
  '''
#include "ws.hpp"
int main()
{
  namespace event = nbdl::websocket::event;
  asio::io_context io;
  wire w(io);
  w.say("GET / HTTP/1.1\\r\\nHost: x\\r\\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\\r\\nSec-WebSocket-Key-Hint: none\\r\\n\\r\\n");
  int ready = 0;
  {
    auto ep = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(w.b)}, std::queue<std::string>{}, nbdl::endpoint_handler(
      event::on_ready = [&](auto& self, auto const&) { ++ready; self.stop(); }
    , event::on_message = [&](auto&, auto const&) { }
    , event::on_close = [&](auto&) { }
    , event::on_bad_request = [](auto&) { }
    , event::on<std::error_code> = [](auto&, auto&&) { }));
    io.run();
  }
  return ready == 1 && w.hear(1000).find("s3pPLMBiTxaQ9kYGzzhZRbK+xOo=") != std::string::npos ? 0 : 1;
}
''', libs='-lpthread', extra=['ws.hpp'])

seed('json-longer-array-accepted', 'C34', 'a message from a peer whose api has a further part (a private payload, a confirmation)',
  'an array with more elements than the message has parts is accepted: what follows is silently dropped',
  [('include/nbdl/binder/jsoncpp.hpp', 'json_val.size() != sizeof...(Xs) + 2', 'json_val.size() < sizeof...(Xs) + 2')],
  '''
#include <nbdl/string.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/message.hpp>
using n = nbdl::message::no_impl; using P = boost::hana::tuple<int, int>;
int main()
{
  nbdl::message::downstream_update<P, n, int, n> plain;
  nbdl::binder::jsoncpp::from_string(std::string("[[1,2],3]"), plain);
  try
  {
    nbdl::binder::jsoncpp::from_string(std::string("[[1,2],3,true]"), plain);
    return 1;
  }
  catch (std::runtime_error const&) { }
}
''', libs='-ljsoncpp')

seed('sha1-pads-one-too-many', 'C35', 'a message of 55 bytes more than a multiple of 64',
  'where the length just fits behind the padding an empty block is added: the digest is wrong for these lengths only',
  [('include/nbdl/detail/beast_sha1.hpp', 'if(buflen > BLOCK_BYTES - 8)', 'if(buflen >= BLOCK_BYTES - 8)')],
  '''
#include <nbdl/detail/beast_sha1.hpp>
#include <cstdio>
#include <cstring>
#include <string>
int main()
{
  namespace sha1 = nbdl::detail::beast_sha1;
  auto hex = [](std::string const& s)
  {
    unsigned char d[20]; std::string r; char b[3];
    sha1::sha1_context c{}; sha1::init(c); sha1::update(c, s.data(), s.size()); sha1::finish(c, d);
    for (auto x : d) { std::snprintf(b, 3, "%02x", x); r += b; }
    return r;
  };
  return hex(std::string(55, 'a')) == "c1c8bbdc22796e28c0e15163d20899b65621d65a" && hex("abc") == "a9993e364706816aba3e25717850c26c9cd0d89d"
    && hex(std::string(56, 'a')) == "c2db330f6083854c99d4b5bfb6e8f29f201be699" ? 0 : 1;
}
''')

seed('send-upstream-takes-anything', 'C09', 'a producer whose implementation takes messages of any type, and a downstream message sent to it',
  'only the producer is checked: a downstream message, or no message at all, is handed to a producer that does not happen to refuse it',
  [('include/nbdl/fwd/send_upstream_message.hpp', 'template <Producer T, UpstreamMessage Message>', 'template <Producer T, typename Message>'),
   ('include/nbdl/send_upstream_message.hpp', 'template<Producer Producer, UpstreamMessage Message>', 'template<Producer Producer, typename Message>')],
  '''
#include <nbdl/message.hpp>
#include <nbdl/send_upstream_message.hpp>
struct link { };
namespace nbdl { template <> struct send_upstream_message_impl<link> { template <typename M> static constexpr auto apply(link&, M&&) { return 0; } }; }
using P = boost::hana::tuple<int>; using n = nbdl::message::no_impl;
template <typename M> constexpr bool sendable = std::is_invocable_v<nbdl::send_upstream_message_fn, link&, M>;
static_assert(sendable<nbdl::message::upstream_read<P, n>>);
static_assert(!sendable<nbdl::message::downstream_update<P, n, int, n>>);
static_assert(!sendable<int>);
int main() { }
''')

seed('signature-of-beginning', 'C36', 'two versions of a large api that differ in a message late in the list',
  'at most 1024 characters of the form of an api go into its signature: apis that begin alike share it',
  [('include/nbdl/api_signature.hpp', 'sha1::update(ctx, type_str.data(), type_str.size());', 'sha1::update(ctx, type_str.data(), type_str.size() < 1024 ? type_str.size() : 1024);')],
  '''
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/api_signature.hpp>
struct part { int first_value, second_value, third_value; nbdl::string fourth_value; };
namespace nbdl { NBDL_ENTITY(part, first_value, second_value, third_value, fourth_value); }
template <typename ...T> using many = boost::hana::tuple<part, part, part, part, part, part, part, part, part, part, T...>;
int main()
{
  auto f = boost::hana::string<'j'>{};
  return nbdl::api_signature<many<int>>(f) == nbdl::api_signature<many<int>>(f) && nbdl::api_signature<many<int>>(f) != nbdl::api_signature<many<unsigned>>(f) ? 0 : 1;
}
''')

seed('ctx-peer-not-told', 'C02', 'an actor that is producer and consumer at once (a link to a peer)',
  'what is told downstream goes only to actors that are nothing but consumers: a peer that can also be sent upstream messages misses it',
  [('include/nbdl/context.hpp', 'if constexpr(nbdl::Consumer<decltype(actor)>)', 'if constexpr(nbdl::Consumer<decltype(actor)> && !nbdl::Producer<decltype(actor)>)')],
  '''
#define PEERS
#include "ctx.hpp"
using namespace wit;
int main()
{
  auto c = std::make_unique<Ctx>();
  events.clear();
  nbdl::apply_message(*c, message::make_downstream_update(mk<1, 4>(3, 4), uid{5}, pay{6}, message::no_is_confirmed));
  return count("down2 ") == 1 && count("down5 ") == 1 ? 0 : 1;
}
''', extra=['ctx.hpp'])
