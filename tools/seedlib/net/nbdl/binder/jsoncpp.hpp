// Stand-in for the JSON binder (C24, C34 are about it): the text of a message
// is eight bytes that are an unknown function of the message; a text may be of
// no message.
#ifndef WIT_APP_JSONCPP_HPP
#define WIT_APP_JSONCPP_HPP
#include "net_wit.hpp"
#include <string>
namespace wit
{
}
namespace nbdl::binder::jsoncpp
{
  template <typename V> std::string to_string(V const& v)
  {
    wit::u64 x = 0;
    v.match([](nbdl::unresolved) { }, [&](auto const& m) { if constexpr (requires { m.kind; }) x = wit::app_text(m.kind, m.h); else x = wit::app_text(1, 0); });
    return std::string(reinterpret_cast<char const*>(&x), 8);
  }
  template <typename V> void from_string(std::string const& s, V& v)
  {
    wit::u64 x = 0; __builtin_memcpy(&x, s.data(), 8);
    int const k = wit::app_kind(x);
    if (k < 0) { wit::evtx_r_unreadable(); wit::evt_r_reads(0); return; }   // it throws, or reads as nothing
    if (k == 1) wit::evt_r_reads(1); else if (k == 2) wit::evt_r_reads(2); else if (k == 3) wit::evt_r_reads(3); else wit::evt_r_reads(0);
    v.fill(k, wit::app_value(x));
  }
}
#endif
