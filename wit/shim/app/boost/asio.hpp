// Stand-in for the parts of Asio and Beast that app/ uses: everything that is
// done is an event, completes at once, and fails or not as an unknown says.
#ifndef WIT_APP_ASIO_HPP
#define WIT_APP_ASIO_HPP
#include "../../../wit.hpp"
#include <string>
#include <string_view>
#include <utility>
namespace wit
{
  int evt_r_acceptor(int what, u64 with) noexcept;     // 0 open, 1 set_option, 2 bind, 3 listen
  bool evt_r_fails(int what, u64 who) noexcept;
  void evt_r_refused(int what) noexcept;
  void evt_r_broken(int what, u64 who) noexcept;
  inline bool calm = false;                             // nothing fails
  inline int acceptor_does(int what, u64 with) { if (calm) return 0; if (evt_r_acceptor(what, with) == 0) return 0; evt_r_refused(what); return 1; }
  inline bool breaks(int what, u64 who) { if (calm or not evt_r_fails(what, who)) return false; evt_r_broken(what, who); return true; }
  u64 evt_r_new_stream() noexcept;
  void evt_r_lookup(u64 host, u64 size, u64 service, u64 size2) noexcept;
  void evt_r_greet(u64 who, u64 host, u64 size, u64 path) noexcept;
  inline u64 word(std::string_view s) { u64 x = 0; for (std::size_t i = 0; i < s.size() and i < 8; i++) x |= u64((unsigned char) s[i]) << 8 * i; return x; }
  void evt_r_sent(u64 who, u64 text, u64 size) noexcept;
  u64 evt_r_incoming(u64 who) noexcept;
}
namespace boost
{
  using string_view = std::string_view;
  namespace system
  {
    struct error_code { int v = 0; explicit operator bool() const { return v != 0; } bool operator!() const { return v == 0; } std::string message() const { return {}; } };
  }
  namespace asio
  {
    struct io_context { wit::u64 id; };
    struct executor { };
    inline executor make_strand(executor x) { return x; }
    inline system::error_code may_fail(int what, wit::u64 who) { return {wit::breaks(what, who) ? 1 : 0}; }
    struct socket_base { struct reuse_address { bool v; }; static constexpr int max_listen_connections = 4096; };
    namespace ip
    {
      struct tcp
      {
        static int v4() { return 4; }
        struct socket
        {
          wit::u64 id;
          explicit socket(wit::u64 x) : id(x) { }
          socket(socket&& x) : id(std::exchange(x.id, 0)) { }
          socket& operator=(socket&& x) { id = std::exchange(x.id, 0); return *this; }
          template <typename E, typename H> void async_connect(E&&, H&& h) { h(may_fail(31, id)); }
        };
        struct endpoint { int v; unsigned short port; int protocol() const { return v; } };
        struct resolver
        {
          resolver(io_context&) { }
          struct entry { tcp::endpoint endpoint() const { return {}; } };
          struct entries { entry e; entry* begin() { return &e; } };
          template <typename H> void async_resolve(int, std::string const& host, std::string const& service, H&& h) { wit::evt_r_lookup(wit::word(host), host.size(), wit::word(service), service.size()); h(may_fail(30, 0), entries{}); }
        };
        struct acceptor
        {
          acceptor(io_context&) { }
          void open(int, system::error_code& e) { e = {wit::acceptor_does(0, 0)}; }
          void set_option(socket_base::reuse_address x, system::error_code& e) { e = {wit::acceptor_does(1, x.v)}; }
          void bind(endpoint x, system::error_code& e) { e = {wit::acceptor_does(2, x.port)}; }
          void listen(int n, system::error_code& e) { e = {wit::acceptor_does(3, n)}; }
          executor get_executor() { return {}; }
          bool is_open() const { return true; }
          template <typename H> void async_accept(H&& h) { async_accept(executor{}, std::forward<H>(h)); }
          template <typename H> void async_accept(executor, H&& h) { auto s = wit::evt_r_new_stream(); h(may_fail(20, s), socket{s}); }
        };
      };
    }
    struct view { void const* p; std::size_t n; };
    template <typename S> view buffer(S& s) { return {s.data(), s.size()}; }
    template <typename S> view buffer(S& s, std::size_t n) { return {s.data(), n}; }
  }
  namespace beast
  {
    struct flat_buffer
    {
      char text[16]; std::size_t n = 0;
      struct part { char const* p; std::size_t n; char const* data() const { return p; } std::size_t size() const { return n; } };
      part data() const { return {text, n}; }
      std::size_t size() const { return n; }
      void consume(std::size_t k) { n -= k; }
    };
    namespace http
    {
      struct string_body { };
      template <typename> struct request { wit::u64 of; };
      template <typename S, typename R, typename H> void async_read(S& s, flat_buffer&, R& r, H&& h) { r.of = s.id; h(asio::may_fail(21, s.id), std::size_t(0)); }
    }
    namespace websocket
    {
      template <typename R> bool is_upgrade(R const& r) { return not wit::breaks(23, r.of); }
      template <typename S> struct stream
      {
        S s;
        stream(S&& x) : s(std::move(x)) { }
        stream(asio::io_context&) : s{wit::evt_r_new_stream()} { }
        wit::u64 id() const { return s.id; }
        S& next_layer() { return s; }
        template <typename R, typename H> void async_accept(R const&, H&& h) { h(asio::may_fail(22, s.id)); }
        template <typename H> void async_handshake(string_view host, string_view path, H&& h) { wit::evt_r_greet(s.id, wit::word(host), host.size(), wit::word(path)); h(asio::may_fail(32, s.id)); }
        template <typename H> void async_read(flat_buffer& b, H&& h)
        {
          auto e = asio::may_fail(24, s.id);
          if (not e) { wit::u64 x = wit::evt_r_incoming(s.id); __builtin_memcpy(b.text + b.n, &x, 8); b.n += 8; }
          h(e, b.n);
        }
        template <typename B, typename H> void async_write(B const& b, H&& h) { wit::u64 x = 0; __builtin_memcpy(&x, b.p, 8); wit::evt_r_sent(s.id, x, b.n); h(asio::may_fail(25, s.id), b.n); }
      };
    }
  }
}
#endif
