// Digests of bytes that are given in pieces.
#include "wit.hpp"
#include <nbdl/detail/beast_sha1.hpp>
using wit::u64;
namespace sha1 = nbdl::detail::beast_sha1;

WIT void wit_digest(unsigned char const* data, u64 n, u64 first, u64 second, unsigned char* out)
{
  sha1::sha1_context c;
  sha1::init(c);
  sha1::update(c, data, first);
  sha1::update(c, data + first, second);
  sha1::update(c, data + first + second, n - first - second);
  sha1::finish(c, out);
}
WIT void wit_again(unsigned char const* data, u64 n, u64 first, u64, unsigned char* out)
{
  sha1::sha1_context c;
  sha1::init(c);
  sha1::update(c, data, first);
  sha1::finish(c, out);
  sha1::init(c);
  sha1::update(c, data, n);
  sha1::finish(c, out);
}
// the end of a message of which so many whole blocks were given before (that are not told; the state is that of the start)
template <typename C> void after(C& c, u64 blocks) { if constexpr (requires { c.blocks = blocks; }) { c.blocks = blocks; } }
WIT void wit_end(unsigned char const* data, u64 n, u64 blocks, u64, unsigned char* out)
{
  sha1::sha1_context c;
  sha1::init(c);
  after(c, blocks);
  sha1::update(c, data, n);
  sha1::finish(c, out);
}
