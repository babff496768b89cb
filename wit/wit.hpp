// Shared vocabulary of the witness programs.
//
// A witness instantiates the templates of /repo/include with opaque types whose
// operations are calls of functions that are declared and never defined
// (`evt_*`).  Whatever the library does with them is therefore visible, for
// every input, as an event of the witness function's control-flow graph.
#ifndef WIT_HPP
#define WIT_HPP

#include <boost/hana.hpp>
#include <type_traits>
#include <utility>

namespace wit
{
  namespace hana = boost::hana;
  using u64 = unsigned long;

  // an opaque value (tag distinguishes types, h is the identity of the value)
  template <int tag>
  struct val
  {
    u64 h;
  };

  template <int tag>
  constexpr bool operator==(val<tag> a, val<tag> b) { return a.h == b.h; }

  // like val, but a moved-from value is visibly gone
  constexpr u64 gone = ~0ul - 7;
  template <int tag>
  struct tval
  {
    u64 h;
    constexpr explicit tval(u64 x) : h(x) { }
    constexpr tval(tval const& o) : h(o.h) { }
    constexpr tval(tval&& o) : h(o.h) { o.h = gone; }
    constexpr tval& operator=(tval const& o) { h = o.h; return *this; }
    constexpr tval& operator=(tval&& o) { u64 x = o.h; o.h = gone; h = x; return *this; }
  };

  template <int tag>
  constexpr bool operator==(tval<tag> const& a, tval<tag> const& b) { return a.h == b.h; }
}

#define WIT extern "C" __attribute__((noinline, used))

#endif
