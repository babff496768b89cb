#ifndef NBDL_UTIL_BASE64_DECODE_HPP
#define NBDL_UTIL_BASE64_DECODE_HPP
#include <nbdl/util/base64_encode.hpp>
namespace nbdl::util
{
  struct base64_decode_fn
  {
    template <typename S, typename B> bool operator()(S const& s, B& b) const
    {
      b.h = b64_bytes(s.data(), s.size());
      return b64_ok(s.data(), s.size());
    }
  };
  constexpr base64_decode_fn base64_decode{};
}
#endif
