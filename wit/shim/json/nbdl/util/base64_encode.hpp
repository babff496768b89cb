// what base64 does is another property's business: here it is a function of the bytes
#ifndef NBDL_UTIL_BASE64_ENCODE_HPP
#define NBDL_UTIL_BASE64_ENCODE_HPP
#include <json/json.h>
extern "C"
{
  char const* b64_text(unsigned long bytes) JV_PURE;
  unsigned long b64_size(unsigned long bytes) JV_PURE;
  bool b64_ok(char const* b, unsigned long n) JV_PURE;
  unsigned long b64_bytes(char const* b, unsigned long n) JV_PURE;
}
namespace nbdl::util
{
  struct base64_encode_fn
  {
    template <typename B> Json::String operator()(B const& b) const { return {b64_text(b.h), b64_size(b.h)}; }
  };
  constexpr base64_encode_fn base64_encode{};
}
#endif
