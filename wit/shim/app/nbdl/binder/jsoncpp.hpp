// Stand-in for the JSON binder (C24, C34 are about it): the text of a message
// is eight bytes that are an unknown function of the message; a text may be of
// no message.
#ifndef WIT_APP_JSONCPP_HPP
#define WIT_APP_JSONCPP_HPP
#include "../../../../wit.hpp"
#include <string>
namespace wit
{
  extern "C" __attribute__((const, nothrow)) u64 app_text(u64 kind, u64 value);
  extern "C" __attribute__((const, nothrow)) int app_kind(u64 text);      // which alternative
  extern "C" __attribute__((const, nothrow)) u64 app_value(u64 text);
  void evtx_r_unreadable();
  void evt_r_reads(int kind, int way) noexcept;
}
namespace nbdl::binder::jsoncpp
{
  template <typename V> std::string to_string(V const& v)
  {
    wit::u64 x = 0;
    v.match([](nbdl::unresolved) { }, [&](auto const& m) { if constexpr (requires { m.kind; }) x = wit::app_text(m.kind + 16 * V::way, m.h); else x = wit::app_text(1 + 16 * V::way, 0); });
    return std::string(reinterpret_cast<char const*>(&x), 8);
  }
  template <typename V> void from_string(std::string const& s, V& v)
  {
    wit::u64 x = 0; __builtin_memcpy(&x, s.data(), 8);
    int const k = wit::app_kind(x);
    if (k < 0) { wit::evtx_r_unreadable(); wit::evt_r_reads(0, V::way); return; }   // it throws, or reads as nothing
    if (k == 1) wit::evt_r_reads(1, V::way); else if (k == 2) wit::evt_r_reads(2, V::way); else if (k == 3) wit::evt_r_reads(3, V::way); else wit::evt_r_reads(0, V::way);
    v.fill(k, wit::app_value(x));
  }
}
#endif
