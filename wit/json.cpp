// Values read from and written to JSON documents.
#include "wit.hpp"
#include <nbdl/string.hpp>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace wit
{
  void evt_r_bool(bool) noexcept; void evt_r_char(char) noexcept; void evt_r_int(int) noexcept; void evt_r_uint(unsigned) noexcept;
  void evt_r_real(double) noexcept; void evt_r_enum(unsigned) noexcept;
  void evt_r_str(char const* b, u64 n) noexcept; void evt_r_buf(u64 h) noexcept;
  void evt_r_count(u64 n) noexcept; void evt_r_id(int) noexcept;

  struct buf      // bytes
  {
    u64 h = 0;
    using value_type = unsigned char;
    unsigned char const* data() const; unsigned char* data(); u64 size() const;
    unsigned char const* begin() const; unsigned char const* end() const; unsigned char* begin(); unsigned char* end();
    void resize(u64, unsigned char = 0);
  };
  template <typename T> struct bag   // a container
  {
    T xs[6] = {}; u64 n = 0;
    using value_type = T; using iterator = T*; using const_iterator = T const*;
    T* begin() { return xs; } T* end() { return xs + n; } T const* begin() const { return xs; } T const* end() const { return xs + n; }
    u64 size() const { return n; } bool empty() const { return n == 0; } void clear() { n = 0; }
    T* insert(T const* at, T x) { u64 p = at - xs; for (u64 i = n; i > p; --i) xs[i] = xs[i - 1]; xs[p] = x; ++n; return xs + p; }
    void push_back(T x) { xs[n++] = x; } template <typename... A> T& emplace_back(A&&... a) { xs[n++] = T(static_cast<A&&>(a)...); return xs[n - 1]; }
  };
  enum class color : unsigned { red, green, blue };
  enum class tiny : unsigned char { };
  enum class level : int { };
  enum class step : signed char { };
  struct empty { };

  struct inner { int p; nbdl::string q; };
  struct flat { int a; nbdl::string b; unsigned c; buf d; };
  struct one { int only; };
  struct deep { inner x; bag<int> xs; inner y; nbdl::string z; };
  using var = nbdl::variant<nbdl::string, int, inner>;
  struct holder { int before; var v; int after; };
  struct lists { bag<inner> is; bag<bag<int>> bs; };
}
namespace nbdl
{
  NBDL_ENTITY(wit::inner, p, q);
  NBDL_ENTITY(wit::flat, a, b, c, d);
  NBDL_ENTITY(wit::one, only);
  NBDL_ENTITY(wit::deep, x, xs, y, z);
  NBDL_ENTITY(wit::holder, before, v, after);
  NBDL_ENTITY(wit::lists, is, bs);
}
namespace wit
{
  inline void show(bool x) { evt_r_bool(x); } inline void show(char x) { evt_r_char(x); } inline void show(int x) { evt_r_int(x); }
  inline void show(unsigned x) { evt_r_uint(x); } inline void show(double x) { evt_r_real(x); } inline void show(color x) { evt_r_enum(unsigned(x)); }
  inline void show(tiny x) { evt_r_char(char(x)); } inline void show(level x) { evt_r_enum(unsigned(x)); } inline void show(step x) { evt_r_char(char(x)); }
  inline void show(nbdl::string const& s) { evt_r_str(s.b, s.n); } inline void show(buf const& b) { evt_r_buf(b.h); }
  inline void show(empty) { }
  inline void show(inner const& x) { show(x.p); show(x.q); }
  inline void show(flat const& x) { show(x.a); show(x.b); show(x.c); show(x.d); }
  inline void show(one const& x) { show(x.only); }
  inline void show(nbdl::unresolved) { }
  template <typename... T> void show(hana::tuple<T...> const& t);
  template <typename T> void show(bag<T> const& b) { evt_r_count(b.n); for (u64 i = 0; i < b.n; ++i) show(b.xs[i]); }
  inline void show(var const& v) { evt_r_id(v.get_type_id()); v.match([](auto const& x) { show(x); }); }
  inline void show(deep const& x) { show(x.x); show(x.xs); show(x.y); show(x.z); }
  inline void show(holder const& x) { show(x.before); show(x.v); show(x.after); }
  inline void show(lists const& x) { show(x.is); show(x.bs); }
  template <typename... T> void show(hana::tuple<T...> const& t) { hana::for_each(t, [](auto const& x) { show(x); }); }

  template <typename T> [[gnu::always_inline]] inline void read(std::string const& s, T x) { nbdl::binder::jsoncpp::from_string(s, x); show(x); }
  template <typename T> [[gnu::always_inline]] inline void write(T const& x) { auto s = nbdl::binder::jsoncpp::to_string(x); }
}
using namespace wit;
using text = std::string const&;
using nbdl::string;
template <typename... T> using tup = hana::tuple<T...>;

WIT void wit_r_bool(text s) { read(s, bool{}); }
WIT void wit_r_char(text s) { read(s, char{}); }
WIT void wit_r_int(text s) { read(s, int{}); }
WIT void wit_r_uint(text s) { read(s, 0u); }
WIT void wit_r_real(text s) { read(s, double{}); }
WIT void wit_r_enum(text s) { read(s, color{}); }
WIT void wit_r_tiny(text s) { read(s, tiny{}); }
WIT void wit_r_level(text s) { read(s, level{}); }
WIT void wit_r_step(text s) { read(s, step{}); }
WIT void wit_r_str(text s) { read(s, string{}); }
WIT void wit_r_buf(text s) { read(s, buf{}); }
WIT void wit_r_tup0(text s) { read(s, tup<>{}); }
WIT void wit_r_tup1(text s) { read(s, tup<int>{}); }
WIT void wit_r_tup2(text s) { read(s, tup<int, string>{}); }
WIT void wit_r_tup3(text s) { read(s, tup<string, string, string>{}); }
WIT void wit_r_tup4(text s) { read(s, tup<int, int, tup<int, int>, int>{}); }
WIT void wit_r_tupe(text s) { read(s, tup<int, empty, string, empty, int>{}); }
WIT void wit_r_inner(text s) { read(s, inner{}); }
WIT void wit_r_flat(text s) { read(s, flat{}); }
WIT void wit_r_one(text s) { read(s, one{}); }
WIT void wit_r_deep(text s) { read(s, deep{}); }
WIT void wit_r_bag(text s) { read(s, bag<int>{}); }
WIT void wit_r_bags(text s) { read(s, bag<string>{}); }
WIT void wit_r_bagi(text s) { read(s, bag<inner>{}); }
WIT void wit_r_bagt(text s) { read(s, bag<tup<int, string>>{}); }
WIT void wit_r_bagb(text s) { read(s, bag<bag<int>>{}); }
WIT void wit_r_var(text s) { read(s, var{}); }
WIT void wit_r_var1(text s, char const* b, u64 n) { read(s, var{string(b, n)}); }
WIT void wit_r_holder(text s) { read(s, holder{}); }

WIT void wit_w_bool(bool x) { write(x); }
WIT void wit_w_char(char x) { write(x); }
WIT void wit_w_int(int x) { write(x); }
WIT void wit_w_uint(unsigned x) { write(x); }
WIT void wit_w_long(long x) { write(x); }
WIT void wit_w_real(double x) { write(x); }
WIT void wit_w_str(char const* b, u64 n) { write(string(b, n)); }
WIT void wit_w_buf(u64 h) { write(buf{h}); }
WIT void wit_w_tup1(int a) { write(tup<int>{a}); }
WIT void wit_w_tup2(int a, char const* b, u64 n) { write(tup<int, string>{a, string(b, n)}); }
WIT void wit_w_tup4(int a, int b, int c, int d, int e) { write(tup<int, int, tup<int, int>, int>{a, b, tup<int, int>{c, d}, e}); }
WIT void wit_w_tupe(int a, char const* b, u64 n, int c) { write(tup<int, empty, string, empty, int>{a, empty{}, string(b, n), empty{}, c}); }
WIT void wit_w_inner(int a, char const* b, u64 n) { write(inner{a, string(b, n)}); }
WIT void wit_w_flat(int a, char const* b, u64 n, unsigned c, u64 d) { write(flat{a, string(b, n), c, buf{d}}); }
WIT void wit_w_one(int a) { write(one{a}); }
template <typename T, typename... A> bag<T> some(A... a) { bag<T> b{}; (b.push_back(a), ...); return b; }
WIT void wit_w_deep(int a, char const* b, u64 n, int p, int q, int c, int d) { write(deep{{a, string(b, n)}, some<int>(p, q), {c, string(b + 1, n)}, string(b + 2, 7)}); }
WIT void wit_w_bag0() { write(bag<int>{}); }
WIT void wit_w_bag1(int a) { write(some<int>(a)); }
WIT void wit_w_bag3(int a, int b, int c) { write(some<int>(a, b, c)); }
WIT void wit_w_bagi(int a, char const* b, u64 n, int c) { write(some<inner>(inner{a, string(b, n)}, inner{c, string(b, n)})); }
WIT void wit_w_bagb(int a, int b) { write(some<bag<int>>(some<int>(a), bag<int>{}, some<int>(b, a))); }
WIT void wit_w_var0() { write(var{}); }
WIT void wit_w_var1(char const* b, u64 n) { write(var{string(b, n)}); }
WIT void wit_w_var2(int a) { write(var{a}); }
WIT void wit_w_var3(int a, char const* b, u64 n) { write(var{inner{a, string(b, n)}}); }
WIT void wit_w_holder(int a, int x, int c) { write(holder{a, var{x}, c}); }
WIT void wit_w_lists0() { write(lists{}); }
