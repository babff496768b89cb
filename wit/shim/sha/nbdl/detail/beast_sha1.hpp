// SHA-1 as an opaque function of the bytes it is given.
#pragma once
#include <cstddef>
namespace wit
{
  void evt_r_sha_init(void* c) noexcept;
  void evt_r_sha_byte(unsigned char b) noexcept;
  extern "C" __attribute__((const, nothrow)) unsigned char digest_byte(int i);
}
namespace nbdl::detail::beast_sha1
{
  struct sha1_context { static unsigned int constexpr block_size = 64; static unsigned int constexpr digest_size = 20; int n; };
  inline void init(sha1_context& c) noexcept { c.n = 0; wit::evt_r_sha_init(&c); }
  inline void update(sha1_context&, void const* p, std::size_t n) noexcept
  { for (std::size_t i = 0; i < n; ++i) wit::evt_r_sha_byte(static_cast<unsigned char const*>(p)[i]); }
  inline void finish(sha1_context&, void* d) noexcept
  { for (int i = 0; i < 20; ++i) static_cast<unsigned char*>(d)[i] = wit::digest_byte(i); }
}
