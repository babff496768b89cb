// WebSocket framing, in and out.
#include "wit.hpp"
#include <algorithm>
#include <boost/asio.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/websocket/detail/message_reader.hpp>
#include <nbdl/websocket/detail/message_sender.hpp>

namespace wit
{
  namespace ws = nbdl::websocket::detail;
  void evt_data(void const* p, u64 n) noexcept;
  void evt_head(unsigned char h, int fin) noexcept;
  void evt_len(int i, unsigned char c) noexcept;
  void evt_r_resolve(void* sender) noexcept;
  void evt_reject(int e) noexcept;
  void evt_done() noexcept;

  struct out
  {
    unsigned char const* b; u64 n;
    unsigned char const* begin() const { return b; }
    unsigned char const* end() const { return b + n; }
    unsigned char const* data() const { return b; }
    u64 size() const { return n; }
  };

  struct resolver
  {
    template <typename S> void resolve(S&& s) { evt_r_resolve((void*)&s); }
    void reject(std::error_code e) { evt_reject(e.value()); }
    void terminate() { evt_done(); }
  };
  using tcp = boost::asio::ip::tcp;

#define SEND(NAME, FN, ...) \
  WIT void wit_send_##NAME(unsigned char const* b, u64 n, int e1, int e2, int e3, tcp::socket& s) \
  { if (n >> 60) return; ws::message_sender<out __VA_OPT__(,) __VA_ARGS__> x(s); x.payload() = out{b, n}; resolver r; FN(r, x); \
    writing(e1); if (writing.set) { writing(e2); if (writing.set) writing(e3); } evt_done(); }
  SEND(text, ws::send_text)
  SEND(binary, ws::send_binary)
  SEND(close, ws::send_close)
  SEND(ping, ws::send_ping)
  SEND(pong, ws::send_pong)

  SEND(big, ws::send_binary, hana::size_t<70000>)
  SEND(few, ws::send_text, hana::size_t<2>)
  SEND(huge, ws::send_binary, hana::size_t<(std::size_t(1) << 59) + 3>)

  // ---- reading
  unsigned evt_size() noexcept;
  cell* evt_cells(u64 n) noexcept;
  int evt_err(int) noexcept;
  void evt_r_event(int kind, cell* p, u64 n) noexcept;
  void evt_xor(cell* p, unsigned char x) noexcept;
  void evt_set(cell* p, unsigned char x) noexcept;
  unsigned char evt_get(cell const* p) noexcept;

  struct cell
  {
    unsigned char raw;
    operator unsigned char() const { return evt_get(this); }
    cell& operator=(unsigned char x) { evt_set(this, x); return *this; }
    cell& operator^=(unsigned char x) { evt_xor(this, x); return *this; }
    cell(cell const&) = delete;
  };

  struct in
  {
    cell* p; u64 n;
    in() : p(evt_cells(0)), n(evt_size()) { }
    cell* begin() { return p; }
    cell* end() { return p + n; }
    cell* data() { return p; }
    u64 size() const { return n; }
    bool empty() const { return n == 0; }
    cell& operator[](u64 i) { return p[i]; }
    void resize(u64 m) { p = evt_cells(m); n = m; }
    void resize(u64 m, int) { resize(m); }
    void clear() { n = 0; }
    void append(u64 m, int) { resize(n + m); }
    cell* insert(cell* at, u64 m, int) { auto k = n; if (at != p + n) evt_xor(at, 0); resize(n + m); return p + k; }
    void assign(u64 m, int) { resize(m); }
  };

  struct keep { keep() = default; keep(keep const&) { } keep(keep&&) { } ~keep() { } };

  struct events
  {
    auto operator[](hana::type<ws::read_event::message_t>) const { return [](auto, auto& c) { reading.over = true; evt_r_event(1, c.payload.p, c.payload.n); }; }
    auto operator[](hana::type<ws::read_event::close_t>) const { return [](auto, auto& c) { reading.over = true; evt_r_event(8, c.payload.p, c.payload.n); }; }
    auto operator[](hana::type<ws::read_event::ping_t>) const { return [](auto, auto&) { reading.over = true; evt_r_event(9, nullptr, 0); }; }
    auto operator[](hana::type<ws::read_event::pong_t>) const { return [](auto, auto&) { reading.over = true; evt_r_event(10, nullptr, 0); }; }
    auto operator[](hana::type<ws::read_event::bad_input_t>) const { return [](auto, auto&) { reading.over = true; evt_r_event(4, nullptr, 0); }; }
    auto operator[](hana::type<std::error_code>) const { return [](std::error_code e, auto&) { reading.over = true; evt_r_event(5, nullptr, e.value()); }; }
  };

#define GO if (reading.set && !reading.over) reading.arrive(evt_err(0));
  // one frame, at the start of a message or anywhere in it, and the start of a data frame of three bytes
  WIT void wit_read_frame(tcp::socket& s)
  {
    ws::message_reader<in, events> r(s, events{});
    reading.over = false;
    r.keep_reading(keep{});
    GO GO GO GO
    if (reading.set) reading.header(0x80, 3);
    evt_done();
  }

  // frames one after the other: a, then b, both data without mask
  WIT void wit_read_two(tcp::socket& s, bool fin, unsigned char l1, unsigned char l2)
  {
    ws::message_reader<in, events> r(s, events{});
    r.keep_reading(keep{});
    reading.header(fin ? 0x81 : 1, l1 & 63);
    reading.bytes();
    reading.header(0x80, l2 & 63);
    reading.bytes();
    evt_done();
  }
  // a control frame in between
  WIT void wit_read_between(tcp::socket& s, bool pong, unsigned char l1, unsigned char l2, unsigned char l3)
  {
    ws::message_reader<in, events> r(s, events{});
    r.keep_reading(keep{});
    reading.header(1, l1 & 63);
    reading.bytes();
    reading.header(pong ? 0x8a : 0x89, l2 & 63);
    reading.bytes();
    reading.header(0x80, l3 & 63);
    reading.bytes();
    evt_done();
  }
}
