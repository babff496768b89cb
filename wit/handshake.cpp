// The WebSocket handshake, on both sides.
#define WIT_TEXT
#include "wit.hpp"
#include <algorithm>
#include <array>
#include <string>
#include <boost/asio.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/websocket/server_endpoint.hpp>
#include <nbdl/websocket/client_endpoint.hpp>

namespace wit
{
  namespace ws = nbdl::websocket::detail;
  namespace ev = nbdl::websocket::event;
  using tcp = boost::asio::ip::tcp;
  template <typename T, int n> using arr = std::array<T, n>;

  void evt_r_len(int what, u64 n) noexcept;
  void evt_r_ch(u64 i, unsigned char c) noexcept;
  void evt_r_in(u64 i, unsigned char c) noexcept;
  void evt_r_told(int kind, void* who, int e) noexcept;
  int evt_r_next() noexcept;

  [[gnu::always_inline]] inline void show(int what, std::string const& s)
  { evt_r_len(what, s.size()); for (u64 i = 0; i < s.size(); ++i) evt_r_ch(i, s[i]); }
  template <typename S> [[gnu::always_inline]] inline void show_in(S const& s)
  { for (u64 i = 0; i < s.size(); ++i) evt_r_in(i, s[i]); }

  // told: 1 ready, 2 bad request, 3 error
  struct handlers
  {
    struct ready
    {
      template <typename S> void operator()(S& s) const { evt_r_told(1, &s, 0); }
      template <typename S> void operator()(S& s, nbdl::auth_token_t const& t) const { evt_r_told(1, &s, 0); show(3, t.value); }
    };
    auto operator[](hana::type<nbdl::endpoint_event::ready_t>) const { return ready{}; }
    auto operator[](hana::type<ev::bad_request_t>) const { return [](auto& self, auto const& ...) { evt_r_told(2, &self, 0); }; }
    auto operator[](hana::type<std::error_code>) const { return [](auto& self, std::error_code e) { evt_r_told(3, &self, e.value()); }; }
  };
}
using namespace wit;

// one header line
#define HEADER(n) WIT void wit_header_##n(arr<char, n> const& x) \
{ show_in(x); ws::handshake_info_t info{std::string("old key"), std::string("old cookies")}; ws::parse_header(info, std::string(x.data(), n)); show(1, info.websocket_key); show(2, info.cookies); }
HEADER(0) HEADER(1) HEADER(2) HEADER(6) HEADER(7) HEADER(8) HEADER(9) HEADER(10) HEADER(11) HEADER(12)
HEADER(16) HEADER(17) HEADER(18) HEADER(19) HEADER(20) HEADER(22) HEADER(24)

// the cookies of a request
#define COOKIES(n) WIT void wit_cookies_##n(arr<char, n> const& x) \
{ show_in(x); auto const t = ws::get_auth_token(std::string(x.data(), n)); show(3, t.value); }
COOKIES(0) COOKIES(1) COOKIES(2) COOKIES(3) COOKIES(4) COOKIES(9) COOKIES(10) COOKIES(11) COOKIES(12) COOKIES(13) COOKIES(14) COOKIES(15) COOKIES(16) COOKIES(26)

// what is expected arrives, or not
#define EXPECT(N) WIT void wit_expect_##N(tcp::socket& s, arr<char, N> const& x, arr<char, N> const& y, int e) \
{ reading.set = false; show_in(x); \
  nbdl::run_async(hana::make_tuple(ws::expect_equal(std::string_view(x.data(), N)), [](tcp::socket& s) { evt_r_told(1, &s, 0); }, \
    nbdl::catch_([&](hana::basic_type<ev::bad_request_t>) { evt_r_told(2, &s, 0); }), nbdl::catch_([&](std::error_code e) { evt_r_told(3, &s, e.value()); })), s); \
  evt_r_len(4, reading.n); if (e == 0) for (u64 i = 0; i < N; ++i) reading.at[i] = y[i]; reading(e); }
EXPECT(1) EXPECT(4) EXPECT(11)

// the lines of a request: l lines of n bytes each (with the line ends), k bytes arrive each time before the line is there
#define READ(N, ...) WIT void wit_read_##N(tcp::socket& s, arr<char, 64> const& x, arr<char, 64> const& y, arr<char, 64> const& z, int e0, int e1, int e2) \
{ until.set = false; nbdl::run_async(hana::make_tuple(nbdl::promise(ws::read_headers{}), \
    [](tcp::socket& s, ws::handshake_info_t const& i) { evt_r_told(1, &s, 0); show(1, i.websocket_key); show(2, i.cookies); }, \
    nbdl::catch_([&](std::error_code e) { evt_r_told(3, &s, e.value()); })), s); \
  __VA_ARGS__ }
#define GOT(text, more, e, n) if (!until.set) return; until.s->append(text).append(more.data(), 2); show(5, *until.s); until(e, n); if (until.set) show(6, *until.s);
#define KEYLINE "sec-websocket-key: KK\r\n"
#define COOKIELINE "Cookies: a=b\r\n"
READ(none, GOT("\r\n", x, e0, 2))
READ(key, GOT(KEYLINE, x, e0, 23) if (!until.set) return; until.s->erase(0, 2); GOT("\r\n", y, e1, 2))
READ(cookies, GOT(COOKIELINE, x, e0, 14) if (!until.set) return; until.s->erase(0, 2); GOT("\r\n", y, e1, 2))
READ(other, GOT("Host: nbdl\r\n", x, e0, 12) if (!until.set) return; until.s->erase(0, 2); GOT("Upgrade\r\n", y, e1, 9) if (!until.set) return; until.s->erase(0, 2); GOT("\r\n", z, e2, 2))
READ(short, GOT("a\r\n", x, e0, 3) if (!until.set) return; until.s->erase(0, 2); GOT("\r\n", y, e1, 2))
READ(both, GOT(KEYLINE COOKIELINE, x, e0, 23) GOT("\r\n", y, e1, 14) if (!until.set) return; until.s->erase(0, 2); GOT("", z, e2, 2))
READ(bothr, GOT(COOKIELINE KEYLINE "\r\n", x, e0, 14) GOT("", y, e1, 23) GOT("", z, e2, 2))

// the answer of the server
#define ANSWER(n, m) WIT void wit_answer_##n##_##m(tcp::socket& s, arr<char, n> const& x, int e) \
{ writing.set = false; show_in(x); ws::handshake_info_t info{std::string(x.data(), n), std::string("nbdl_auth=TOKEN;").substr(0, m)}; \
  nbdl::run_async(hana::make_tuple(ws::send_handshake_response(), [](tcp::socket& s, nbdl::auth_token_t const& t) { evt_r_told(1, &s, 0); show(3, t.value); }, \
    nbdl::catch_([&](std::error_code e) { evt_r_told(3, &s, e.value()); })), s, info); \
  info = ws::handshake_info_t{}; if (!writing.set) return; if (e == 0) written(); writing(e); }
ANSWER(0, 0) ANSWER(3, 15) ANSWER(24, 16) ANSWER(24, 2) ANSWER(40, 16)

// the whole handshake of a server
struct self_t { int x; };
WIT void wit_server(tcp::socket& s, self_t& self, arr<char, 16> const& line, int e0, int e1, int e2, int e3)
{
  reading.set = writing.set = until.set = false;
  handlers h; show_in(line);
  ws::server_endpoint_init(self, s, h);
  if (!reading.set) return;
  if (e0 == 0) for (u64 i = 0; i < 16; ++i) reading.at[i] = line[i];
  evt_r_len(4, reading.n);
  reading(e0);
  if (!until.set) return;
  until.s->append("Sec-WebSocket-Key:  KK\r\nCookies: nbdl_auth=T\r\n\r\n");
  until(e1, 24);
  if (!until.set) return;
  until(e2, 22);
  if (!until.set) return;
  until(0, 2);
  if (!writing.set) return;
  if (e3 == 0) written();
  writing(e3);
}

// a client
struct cqueue { using value_type = std::string; bool empty() const { return true; } u64 size() const { return 0; } std::string& front(); void pop(); void push(std::string); };
#define CLIENT(N, M) WIT void wit_client_##N##_##M(tcp::socket& s, arr<char, N> const& x, arr<char, M> const& y, arr<char, 129> const& z, int e0, int e1) \
{ reading.set = writing.set = false; show_in(x); show_in(y); \
  auto p = nbdl::endpoint_open_impl<nbdl::websocket::client_endpoint>::apply( \
    nbdl::websocket::client_endpoint{s, nbdl::auth_token_t{std::string(x.data(), N)}, nbdl::websocket::origin_t{std::string(y.data(), M)}}, cqueue{}, handlers{}); \
  if (!writing.set) return; if (e0 == 0) written(); writing(e0); \
  if (!reading.set) return; evt_r_len(4, reading.n); if (e1 == 0) for (u64 i = 0; i < 129; ++i) reading.at[i] = z[i]; reading(e1); }
CLIENT(2, 3) CLIENT(0, 20)

// the origin and the token that a request is made of stay as they are
WIT void wit_request_again(arr<char, 20> const& x, arr<char, 2> const& y)
{
  nbdl::websocket::origin_t o{std::string(x.data(), 20)}; nbdl::auth_token_t t{std::string(y.data(), 2)};
  auto p = ws::send_handshake_request(o, t); show(1, o.value); show(2, t.value);
}
