// Stand-in for emscripten::val: a handle of a value in JavaScript; everything done with it is an event.
#pragma once
#include <emscripten.h>
#include <string>
#include <string.h>
#include <type_traits>
#include <utility>
namespace wit
{
  extern "C" __attribute__((const, nothrow)) u64 js_undefined();
  using byte = unsigned char;
  extern "C" __attribute__((const, nothrow)) u64 js_text(u64 size, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte, byte);    // a text of up to 32 bytes
  extern "C" __attribute__((const, nothrow)) u64 js_number(u64);
  extern "C" __attribute__((const, nothrow)) u64 js_global(u64 name);
  u64 evt_r_js_call(u64 self, u64 name) noexcept;
  u64 evt_r_js_call1(u64 self, u64 name, u64) noexcept;
  u64 evt_r_js_call2(u64 self, u64 name, u64, u64) noexcept;
  u64 evt_r_js_call3(u64 self, u64 name, u64, u64, u64) noexcept;
  u64 evt_r_js_get(u64 self, u64 name) noexcept;
  void evt_r_js_set(u64 self, u64 name, u64) noexcept;
  [[gnu::always_inline]] inline u64 js_str(char const* p, u64 n)
  { return js_text(n, n > 0 ? p[0] : 0, n > 1 ? p[1] : 0, n > 2 ? p[2] : 0, n > 3 ? p[3] : 0, n > 4 ? p[4] : 0, n > 5 ? p[5] : 0, n > 6 ? p[6] : 0, n > 7 ? p[7] : 0, n > 8 ? p[8] : 0, n > 9 ? p[9] : 0, n > 10 ? p[10] : 0, n > 11 ? p[11] : 0, n > 12 ? p[12] : 0, n > 13 ? p[13] : 0, n > 14 ? p[14] : 0, n > 15 ? p[15] : 0, n > 16 ? p[16] : 0, n > 17 ? p[17] : 0, n > 18 ? p[18] : 0, n > 19 ? p[19] : 0, n > 20 ? p[20] : 0, n > 21 ? p[21] : 0, n > 22 ? p[22] : 0, n > 23 ? p[23] : 0, n > 24 ? p[24] : 0, n > 25 ? p[25] : 0, n > 26 ? p[26] : 0, n > 27 ? p[27] : 0, n > 28 ? p[28] : 0, n > 29 ? p[29] : 0, n > 30 ? p[30] : 0, n > 31 ? p[31] : 0); }
  inline u64 js_str(char const* p) { u64 n = 0; while (p[n]) ++n; return js_str(p, n); }
}
namespace emscripten
{
  struct val
  {
    wit::u64 h;
    struct raw { wit::u64 h; };
    explicit val(raw r) : h(r.h) { }
    explicit val(char const* s) : h(wit::js_str(s)) { }
    explicit val(std::string const& s) : h(wit::js_str(s.data(), s.size())) { }
    template <typename T> requires std::is_arithmetic_v<T> explicit val(T x) : h(wit::js_number(wit::u64(x))) { }
    val(val const&) = default;
    val(val&& o) : h(o.h) { o.h = wit::js_undefined(); }
    val& operator=(val const&) = default;
    val& operator=(val&& o) { h = o.h; if (&o != this) o.h = wit::js_undefined(); return *this; }
    static val undefined() { return val(raw{wit::js_undefined()}); }
    static val global(char const* n) { return val(raw{wit::js_global(wit::js_str(n))}); }
    static wit::u64 arg(val const& v) { return v.h; }
    static wit::u64 arg(char const* s) { return wit::js_str(s); }
    static wit::u64 arg(std::string const& s) { return val(s).h; }
    template <typename R, typename ...A> R call(char const* name, A const& ...a) const
    {
      wit::u64 r;
      if constexpr (sizeof...(A) == 0) r = wit::evt_r_js_call(h, wit::js_str(name));
      else if constexpr (sizeof...(A) == 1) r = wit::evt_r_js_call1(h, wit::js_str(name), arg(a)...);
      else if constexpr (sizeof...(A) == 2) r = wit::evt_r_js_call2(h, wit::js_str(name), arg(a)...);
      else r = wit::evt_r_js_call3(h, wit::js_str(name), arg(a)...);
      if constexpr (!std::is_void_v<R>) return R(raw{r});
    }
    template <typename K> val operator[](K const& k) const { return val(raw{wit::evt_r_js_get(h, arg(k))}); }
    template <typename K, typename V> void set(K const& k, V const& v) { wit::evt_r_js_set(h, arg(k), arg(v)); }
  };
}
