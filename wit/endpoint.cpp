// A WebSocket endpoint and its life.
#include "wit.hpp"
#include <algorithm>
#include <boost/asio.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/websocket/detail/endpoint_impl.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>

namespace wit
{
  namespace ws = nbdl::websocket::detail;
  namespace ev = nbdl::websocket::event;
  using tcp = boost::asio::ip::tcp;

  struct cell { unsigned char raw; operator unsigned char() const { return raw; } cell& operator=(unsigned char) { return *this; } cell& operator^=(unsigned char) { return *this; } cell(cell const&) = delete; };

  int evt_r_pick() noexcept;
  void evt_r_waiting(u64) noexcept;
  cell* evt_r_front(u64) noexcept;
  void evt_r_pop(u64) noexcept;
  void evt_r_push(cell const*) noexcept;
  void evt_r_taken() noexcept;
  void evt_r_send(cell* p) noexcept;
  void evt_r_told(int kind, cell* p, int e) noexcept;
  void evt_r_act(int a) noexcept;
  void evt_r_done() noexcept;
  void evt_r_gone() noexcept;
  cell* evt_r_cells(u64 n) noexcept;

  // a payload is known by where it is
  struct body
  {
    cell* p = nullptr; u64 n = 0; bool queued = false;
    body() = default;
    body(cell* p, u64 n, bool q = false) : p(p), n(n), queued(q) { }
    body(body const& o) : p(o.p), n(o.n) { }
    body& operator=(body const& o) { p = o.p; n = o.n; return *this; }
    // what is moved out of the queue is no longer in it
    body(body&& o) : p(o.p), n(o.n) { if (o.queued) evt_r_taken(); }
    body& operator=(body&& o) { p = o.p; n = o.n; if (o.queued) evt_r_taken(); return *this; }
    cell* begin() { return p; }
    cell* end() { return p + n; }
    cell* data() { return p; }
    u64 size() const { return n; }
    cell& operator[](u64 i) { return p[i]; }
    void resize(u64 m, int = 0) { p = m ? evt_r_cells(m) : nullptr; n = m; }
    void clear() { n = 0; }
    bool empty() const { return n == 0; }
    cell const* begin() const { return p; }
    cell const* end() const { return p + n; }
    void append(u64 m, int) { resize(n + m); }
    cell* insert(cell*, u64 m, int) { auto k = n; resize(n + m); return p + k; }
    void assign(u64 m, int) { resize(m); }
  };

  // a queue that tells what it is asked; it is filled by others too
  struct queue
  {
    using value_type = body;
    body top; u64 n;
    u64 size() const { evt_r_waiting(n); return n; }
    bool empty() const { return size() == 0; }
    body& front() { top.p = evt_r_front(n); top.n = 5; top.queued = true; return top; }
    void pop() { evt_r_pop(n); --n; }
    void push(body const& b) { ++n; evt_r_push(b.p); }
  };

  struct send
  {
    template <typename R, typename S>
    void operator()(R& r, S& s) const
    {
      evt_r_send(s.data.payload.p);
      writing.put([&r, &s](std::error_code e, std::size_t) { if (e) r.reject(e); else r.resolve(s); });
    }
  };

  // what the user does about what it is told: nothing, stop, close, send, let go
  inline int react;
  inline owner<struct endpoint>* mine;
  template <int kind> void told(auto& self, cell* p, int e);

  struct events
  {
    auto operator[](hana::type<ev::message_t>) const { return [](auto& self, body& b) { told<1>(self, b.p, 0); }; }
    auto operator[](hana::type<ev::close_t>) const { return [](auto& self) { told<8>(self, nullptr, 0); }; }
    auto operator[](hana::type<ev::bad_request_t>) const { return [](auto& self) { told<4>(self, nullptr, 0); }; }
    auto operator[](hana::type<std::error_code>) const { return [](auto& self, std::error_code e) { told<5>(self, nullptr, e.value()); }; }
  };

  struct endpoint : ws::endpoint_impl<queue, events, send, endpoint>
  {
    using base = ws::endpoint_impl<queue, events, send, endpoint>;
    using base::base;
    ~endpoint() { evt_r_gone(); }
  };
  struct init { template <typename ...A> void operator()(A&&...) const { evt_r_act(0); } };

  template <int kind> void told(auto& self, cell* p, int e)
  {
    evt_r_told(kind, p, e);
    int r = react; react = 0;
    if (r == 1) { evt_r_act(4); self.stop(); }
    if (r == 2) { evt_r_act(3); self.send_close(); }
    if (r == 3) { evt_r_act(2); self.send_message(body{p, 7}); }
    if (r == 4) { evt_r_act(11); mine->reset(); }
  }

  // what can happen to an endpoint
  inline bool happen(int a, int err, cell* p)
  {
    bool w = writing.set, r = reading.set;
    endpoint* e = mine->get();
#define CASE(n, able, ...) case n: if (!(able)) return false; evt_r_act(n); __VA_ARGS__; return true;
    switch (a)
    {
      CASE(1, e, e->start_messaging())
      CASE(2, e, e->send_message(body{p, 7}))
      CASE(3, e, e->send_close())
      CASE(4, e, e->stop())
      CASE(5, w, writing(err))                                 // a write ends
      CASE(6, r, reading.header(0x88, 0); reading.bytes())     // a close frame
      CASE(7, r, reading.header(0x81, 5); reading.bytes())     // a message
      CASE(8, r, reading.header(0x89, 5); reading.bytes())     // a ping
      CASE(9, r && err != 0, reading(err))                     // an error
      CASE(10, r, reading.header(0x83, 5))                     // bad input
      CASE(11, e, mine->reset())
      default: return false;
    }
  }

#define HIST(n, r, ...) WIT void wit_ep_##n(tcp::socket& s, unsigned waiting, int e0, int e1, int e2, int e3, int e4, cell* p0, cell* p1, cell* p2, cell* p3, cell* p4) \
  { reading.set = writing.set = false; react = r; auto sp = owner<endpoint>(new endpoint(std::move(s), queue{{}, waiting}, events{}, init{})); mine = &sp; __VA_ARGS__ evt_r_done(); }
#define D(i, a) if (!happen(a, e##i, p##i)) return;
#define ANY(i) { int a = evt_r_pick(); D(i, a) }
#define ALL(x) x(1) x(2) x(3) x(4) x(5) x(6) x(7) x(8) x(9) x(10) x(11)
#define FROM(k) HIST(from##k, 0, D(0, 1) D(1, k) ANY(2) ANY(3))
#define LATE(k) HIST(late##k, 0, D(0, k) ANY(1) D(2, 1) ANY(3))
  FROM(2) FROM(3) FROM(4) FROM(5) FROM(6) FROM(7) FROM(8) FROM(9) FROM(10) FROM(11)
  HIST(from1, 0, D(0, 1) D(1, 1) ANY(2))
  LATE(2) LATE(3) LATE(4)
#define REACT(r, k) HIST(react##r##_##k, r, D(0, 1) D(1, k) ANY(2) ANY(3))
#define REACTS(k) REACT(1, k) REACT(2, k) REACT(3, k) REACT(4, k)
  REACTS(3) REACTS(6) REACTS(7) REACTS(9) REACTS(10)
  REACT(1, 5) REACT(2, 5) REACT(3, 5) REACT(4, 5)
  // longer histories of closing
  HIST(closing1, 0, D(0, 1) D(1, 5) D(2, 3) ANY(3) ANY(4))
  HIST(closing2, 0, D(0, 1) D(1, 3) D(2, 5) ANY(3) ANY(4))
  HIST(closing3, 0, D(0, 1) D(1, 6) D(2, 5) ANY(3) ANY(4))
  HIST(closing4, 0, D(0, 1) D(1, 5) D(2, 6) ANY(3) ANY(4))
  HIST(closing5, 0, D(0, 1) D(1, 3) D(2, 6) ANY(3) ANY(4))
}
