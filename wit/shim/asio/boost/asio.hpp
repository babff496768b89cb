// Boost.Asio as an opaque world: every operation is an event, every completion is up to the witness.
//
// A read or write hands its buffers to the world and leaves its handler in a
// slot; the witness completes it (with an error code of its choice) or never.
#ifndef SHIM_BOOST_ASIO_HPP
#define SHIM_BOOST_ASIO_HPP
#include <array>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>

namespace wit
{
  // io: 0 write, 1 read; n is the number of buffers
  void evt_r_io(int io, void* sock, int n) noexcept;
  void evt_r_buf(void const* p, std::size_t n) noexcept;
  void evt_r_byte(unsigned char c) noexcept;
  void evt_io_done(int io) noexcept;
  void evtx_r_shutdown(void* sock);              // it may fail
  bool evt_r_shutdown(void* sock) noexcept;
  extern char world;
  inline std::error_category const& category() { return reinterpret_cast<std::error_category const&>(world); }

  unsigned char evt_in(int i) noexcept;          // a byte that arrives
  void evt_r_fill(void* p, std::size_t n) noexcept; // bytes of a payload arrive
  struct cell;                                    // what opaque payloads are made of

  struct pending
  {
    unsigned char* at; std::size_t n; bool opaque;
    bool over; // a payload has arrived or an event was told

    void* p; void (*go)(void*, int); void (*drop)(void*); bool set;
    template <typename H>
    void put(H&& h)
    {
      using T = std::decay_t<H>;
      p = new T(std::forward<H>(h));
      set = true;
      go = [](void* q, int e) { T t(std::move(*static_cast<T*>(q))); delete static_cast<T*>(q); t(std::error_code(e, category()), std::size_t(e)); };
      drop = [](void* q) { delete static_cast<T*>(q); };
    }
    // completes with error e (0: success)
    void operator()(int e) { set = false; go(p, e); }
    // a frame header arrives
    void header(unsigned char h0, unsigned char h1) { set = false; at[0] = h0; at[1] = h1; go(p, 0); }
    void bytes() { set = false; evt_r_fill(at, n); go(p, 0); }
    // the same for a read: on success the bytes have arrived
    void arrive(int e)
    {
      set = false;
      if (e == 0 && opaque) { evt_r_fill(at, n); over = true; }
      else if (e == 0)
      {
#define B(i) if (n > i) at[i] = evt_in(i);
        B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7)
#undef B
        if (n > 8) evt_r_fill(at, n);
      }
      go(p, e);
    }
    void cancel() { set = false; drop(p); }
  };
  inline pending reading, writing;

#ifdef WIT_TEXT
  // what is written is shown when it has been written; lines arrive in a string
  void evt_r_out(unsigned char c) noexcept;
  void evt_r_from(void const* p, std::size_t n) noexcept;
  void evt_r_until(void* sock, std::string const* s, std::size_t limit) noexcept;
  void evt_r_delim(unsigned char c) noexcept;
  struct text { void const* p[8]; std::size_t n[8]; int k; };
  inline text out;
  inline void keep(void const* p, std::size_t n) { out.p[out.k] = p; out.n[out.k] = n; ++out.k; }
  [[gnu::always_inline]] inline void written()
  {
    for (int i = 0; i < out.k; ++i) evt_r_from(out.p[i], out.n[i]);
    for (int i = 0; i < out.k; ++i)
      for (std::size_t j = 0; j < out.n[i]; ++j) evt_r_out(static_cast<unsigned char const*>(out.p[i])[j]);
  }
  struct lines
  {
    std::string* s; void* p; void (*go)(void*, std::error_code, std::size_t); bool set;
    // the next line ends after n bytes of what is in the buffer now
    void operator()(int e, std::size_t n) { set = false; go(p, std::error_code(e, category()), n); }
  };
  inline lines until;
#endif
}

namespace boost::system
{
  using error_code = std::error_code;
  using system_error = std::system_error;
}

namespace boost::asio
{
  namespace error
  {
    enum basic_errors { connection_reset = 104, operation_aborted = 125, connection_refused = 111 };
    enum misc_errors { already_open = 1, eof, not_found, fd_set_failure };
    inline std::error_code make_error_code(basic_errors e) { return std::error_code(e, wit::category()); }
    inline std::error_code make_error_code(misc_errors e) { return std::error_code(e, wit::category()); }
  }
  struct mutable_buffer
  {
    void* p = nullptr; std::size_t n = 0; bool opaque = false;
    mutable_buffer() = default;
    mutable_buffer(void* p, std::size_t n, bool o = false) : p(p), n(n), opaque(o) { }
    void* data() const { return p; }
    std::size_t size() const { return n; }
  };
  struct const_buffer
  {
    void const* p = nullptr; std::size_t n = 0;
    const_buffer() = default;
    const_buffer(void const* p, std::size_t n) : p(p), n(n) { }
    const_buffer(mutable_buffer b) : p(b.p), n(b.n) { }
    void const* data() const { return p; }
    std::size_t size() const { return n; }
  };
  using const_buffers_1 = const_buffer;
  using mutable_buffers_1 = mutable_buffer;

  inline mutable_buffer buffer(void* p, std::size_t n) { return {p, n}; }
  inline const_buffer buffer(void const* p, std::size_t n) { return {p, n}; }
  inline mutable_buffer buffer(wit::cell* p, std::size_t n) { return {(void*)p, n, true}; }
  inline const_buffer buffer(std::string_view s) { return {s.data(), s.size()}; }
  inline mutable_buffer buffer(mutable_buffer b) { return b; }
  inline const_buffer buffer(const_buffer b) { return b; }
  inline mutable_buffer buffer(mutable_buffer b, std::size_t n) { return {b.p, n < b.n ? n : b.n, b.opaque}; }
  inline const_buffer buffer(const_buffer b, std::size_t n) { return {b.p, n < b.n ? n : b.n}; }
  template <typename C> requires requires (C& c) { c.data(); c.begin(); }
  auto buffer(C& c) { return buffer(static_cast<decltype(&*c.data())>(c.data()), c.size() * sizeof(*c.data())); }
  template <typename C> requires requires (C& c) { c.data(); c.begin(); }
  auto buffer(C& c, std::size_t n) { return buffer(buffer(c), n); }
  template <typename T, std::size_t m> auto buffer(T (&c)[m]) { return buffer(static_cast<decltype(&*c)>(c), m * sizeof(T)); }
  template <typename T, std::size_t m> auto buffer(T (&c)[m], std::size_t n) { return buffer(buffer(c), n); }

  struct io_context { };
  using io_service = io_context;

  namespace ip
  {
    struct tcp
    {
      struct endpoint { };
      struct socket
      {
        enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
        wit::pending* none = nullptr;
        socket() = default;
        socket(socket&&) = default;
        socket(socket const&) = delete;
        void shutdown(shutdown_type) { wit::evtx_r_shutdown(this); }
        void shutdown(shutdown_type, std::error_code& ec) { ec = std::error_code(!wit::evt_r_shutdown(this), wit::category()); }
        void close() { wit::evt_r_shutdown(this); }
      };
    };
  }

  namespace detail
  {
    inline int put(mutable_buffer b) { wit::evt_r_buf(b.p, b.n); return 1; }
    inline int put(const_buffer b) { wit::evt_r_buf(b.p, b.n); return 1; }
    // all buffers but the last are shown byte by byte (up to 14 bytes)
    inline void bytes(const_buffer b)
    {
      auto* p = static_cast<unsigned char const*>(b.p);
#define B(i) if (b.n > i) wit::evt_r_byte(p[i]);
      B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(11) B(12) B(13)
#undef B
      if (b.n > 14) wit::evt_r_buf(b.p, b.n);
    }
    inline mutable_buffer first(mutable_buffer b) { return b; }
    template <typename C> auto first(C const& c) -> decltype(mutable_buffer(*c.begin())) { return *c.begin(); }
    template <typename C, std::size_t ...i> int put_n(C const& c, std::index_sequence<i...>) { (bytes(c[i]), ...); return put(c[sizeof...(i)]); }
    template <typename B, std::size_t n> int put(std::array<B, n> const& c) { return put_n(c, std::make_index_sequence<n - 1>{}); }
    template <typename B, std::size_t n> int put(B const (&c)[n]) { return put_n(c, std::make_index_sequence<n - 1>{}); }
    template <typename C> auto put(C const& c) -> decltype(c.begin(), 0)
    {
      auto it = c.begin(), last = c.end();
      if (it == last) return 0;
      --last;
      for (; it != last; ++it) bytes(*it);
      return put(*last);
    }
  }

#ifdef WIT_TEXT
  namespace detail
  {
    inline void keep(const_buffer b) { wit::keep(b.p, b.n); }
    inline void keep(mutable_buffer b) { wit::keep(b.p, b.n); }
    template <typename C> auto keep(C const& c) -> decltype(c.begin(), void()) { for (auto const& b : c) wit::keep(b.data(), b.size()); }
  }
  struct dynamic_string_buffer { std::string& s; std::size_t limit; };
  inline dynamic_string_buffer dynamic_buffer(std::string& s) { return {s, ~0ul}; }
  inline dynamic_string_buffer dynamic_buffer(std::string& s, std::size_t limit) { return {s, limit}; }
  template <typename S, typename H>
  void async_read_until(S& s, dynamic_string_buffer b, std::string_view delim, H&& h)
  {
    using T = std::decay_t<H>;
    wit::evt_r_until(&s, &b.s, b.limit);
    for (std::size_t i = 0; i < delim.size(); ++i) wit::evt_r_delim(delim[i]);
    wit::until.s = &b.s;
    wit::until.p = new T(std::forward<H>(h));
    wit::until.set = true;
    wit::until.go = [](void* q, std::error_code e, std::size_t n) { T t(std::move(*static_cast<T*>(q))); delete static_cast<T*>(q); t(e, n); };
  }
  template <typename S, typename H>
  void async_read_until(S& s, dynamic_string_buffer b, char delim, H&& h) { async_read_until(s, b, std::string_view(&delim, 1), std::forward<H>(h)); }
#endif

  template <typename S, typename B, typename H>
  void async_write(S& s, B const& b, H&& h)
  {
    wit::evt_r_io(0, &s, 0);
#ifdef WIT_TEXT
    wit::out.k = 0;
    detail::keep(b);
#else
    detail::put(b);
#endif
    wit::writing.put(std::forward<H>(h));
  }

  template <typename S, typename B, typename H>
  void async_read(S& s, B const& b, H&& h)
  {
    wit::evt_r_io(1, &s, 0);
#ifndef WIT_TEXT
    detail::put(b);
#endif
    mutable_buffer m = detail::first(b);
    wit::reading.at = static_cast<unsigned char*>(m.p); wit::reading.n = m.n; wit::reading.opaque = m.opaque;
    wit::reading.put(std::forward<H>(h));
  }

  template <typename E, typename F> void post(E&&, F&& f) { std::forward<F>(f)(); }
  template <typename E, typename F> void dispatch(E&&, F&& f) { std::forward<F>(f)(); }
}

template <> struct std::is_error_code_enum<boost::asio::error::basic_errors> : std::true_type { };
template <> struct std::is_error_code_enum<boost::asio::error::misc_errors> : std::true_type { };

#endif
