// Base64 as an opaque function of the bytes it is given.
#pragma once
#include <string>
namespace wit
{
  void evt_r_b64_byte(unsigned char b) noexcept;
  extern "C" __attribute__((const, nothrow)) char token_byte(int i);
}
namespace nbdl::util
{
  constexpr auto base64_encode = [](auto const& c) -> std::string
  {
    std::string s(28, 'x');
    for (auto x : c) wit::evt_r_b64_byte(x);
    for (int i = 0; i < 28; ++i) s[i] = wit::token_byte(i);
    return s;
  };
}
