// The network of these demonstrations: what happens is written down.
#ifndef NET_WIT_HPP
#define NET_WIT_HPP
#include <boost/hana.hpp>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace wit
{
  using u64 = std::uint64_t;
  inline u64 app_text(u64 kind, u64 value) { return kind << 56 | value; }
  inline int app_kind(u64 text) { return text >> 56 > 100 ? -1 : int(text >> 56); }
  inline u64 app_value(u64 text) { return text << 8 >> 8; }
  inline void evtx_r_unreadable() { throw 1; }
  inline void evt_r_reads(int) noexcept { }
}
#endif
