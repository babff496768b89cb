#ifndef WS_HPP
#define WS_HPP
#include <boost/asio.hpp>
#include <cstdio>
#include <unistd.h>
#include <queue>
#include <string>
#include <vector>
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/client_endpoint.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
namespace asio = boost::asio;
namespace hana = boost::hana;
using tcp = asio::ip::tcp;
// two connected sockets over the loopback interface
struct wire
{
  asio::io_context& io;
  tcp::socket a, b;
  wire(asio::io_context& i) : io(i), a(i), b(i)
  {
    tcp::acceptor acc(io, tcp::endpoint(asio::ip::address_v4::loopback(), 0));
    a.connect(acc.local_endpoint());
    acc.accept(b);
  }
  void say(std::string const& s) { asio::write(a, asio::buffer(s)); }
  // whatever arrives until the other side ends or `n` bytes
  std::string hear(std::size_t n)
  {
    std::string s(n, 0);
    boost::system::error_code e;
    s.resize(asio::read(a, asio::buffer(s), e));
    return s;
  }
};
inline std::string frame(unsigned char head, std::string const& payload)
{
  std::string s;
  s += static_cast<char>(head);
  s += static_cast<char>(payload.size()); // short ones
  return s + payload;
}
inline std::string const request =
  "GET / HTTP/1.1\r\nHost: x\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
#endif
