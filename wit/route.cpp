// The routes of a web page: text <-> variant.
#include "wit.hpp"
#include <array>
#include <string>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>

namespace wit
{
  using namespace hana::literals;
  template <typename T, int n> using arr = std::array<T, n>;

  void evt_r_is(int what) noexcept;
  void evt_r_num(u64 n) noexcept;
  void evt_r_sent(int n, int what) noexcept;
  void evt_r_len(int what, u64 n) noexcept;
  void evt_r_ch(u64 i, unsigned char c) noexcept;

  template <typename S> [[gnu::always_inline]] inline void show(int what, S const& s)
  { evt_r_len(what, s.size()); for (u64 i = 0; i < s.size(); ++i) evt_r_ch(i, s[i]); }

  using str = nbdl::string;
  struct f { u64 id; };
  struct fo { str a; str b; u64 id; };
  struct foo { u64 id; str name; };
  struct foobar { };
  struct bar { str name; };
  struct num { unsigned short id; };
  struct sig { int id; };
  struct all { str a, b, c, d, e, f, g, h, i; };
}
namespace nbdl
{
  NBDL_ENTITY(wit::f, id);
  NBDL_ENTITY(wit::fo, a, b, id);
  NBDL_ENTITY(wit::foo, id, name);
  NBDL_EMPTY(wit::foobar);
  NBDL_ENTITY(wit::bar, name);
  NBDL_ENTITY(wit::num, id);
  NBDL_ENTITY(wit::sig, id);
  NBDL_ENTITY(wit::all, a, b, c, d, e, f, g, h, i);
}
namespace wit
{
  using nbdl::webui::route_pair;
  constexpr auto routes = nbdl::webui::make_route_map(
    route_pair<>(""_s)
  , route_pair<f>("f"_s)
  , route_pair<foo>("foo"_s)
  , route_pair<fo>("fo"_s)
  , route_pair<foobar>("foo-bar"_s)
  , route_pair<bar>("Bar"_s)
  , route_pair<num>("num"_s)
  , route_pair<sig>("sig"_s)
  , route_pair<all>("all"_s));
  using variant = std::decay_t<decltype(routes)>::variant;

  struct look
  {
    void operator()(nbdl::webui::route_not_found) const { evt_r_is(0); }
    void operator()(nbdl::unresolved) const { evt_r_is(0); }
    void operator()(std::decay_t<decltype(""_s)>) const { evt_r_is(1); }
    void operator()(f const& x) const { evt_r_is(2); evt_r_num(x.id); }
    void operator()(foo const& x) const { evt_r_is(3); evt_r_num(x.id); show(0, x.name); }
    void operator()(fo const& x) const { evt_r_is(4); show(0, x.a); show(1, x.b); evt_r_num(x.id); }
    void operator()(foobar const&) const { evt_r_is(5); }
    void operator()(bar const& x) const { evt_r_is(6); show(0, x.name); }
    void operator()(num const& x) const { evt_r_is(7); evt_r_num(x.id); }
    void operator()(sig const& x) const { evt_r_is(8); evt_r_num(x.id); }
    void operator()(all const& x) const { evt_r_is(9); show(0, x.a); show(1, x.b); show(2, x.c); show(3, x.d); show(4, x.e); show(5, x.f); show(6, x.g); show(7, x.h); show(8, x.i); }
  };
  [[gnu::always_inline]] inline void tell(variant const& v) { v.match(look{}); }
}
using namespace wit;

// a text of n bytes
WIT void wit_from(arr<char, 40> const& x, u64 n) { str s(x.data(), n); tell(routes.from_string(s)); }

// the text of a value
#define TO_F(name, base) WIT void wit_to_f_##name(unsigned char const& a) { show(9, routes.to_string(f{base + a})); }
TO_F(0, 0ul) TO_F(900, 900ul) TO_F(31, (1ul << 31) - 128) TO_F(32, (1ul << 32) - 128) TO_F(63, (1ul << 63) - 128) TO_F(64, ~0ul - 255)
WIT void wit_to_num(unsigned char const& a) { show(9, routes.to_string(num{static_cast<unsigned short>(65280 + a)})); }
WIT void wit_to_sig(unsigned char const& a) { show(9, routes.to_string(sig{0x7fffff00 + a})); }
WIT void wit_to_root() { show(9, routes.to_string(""_s)); }
WIT void wit_to_foobar() { show(9, routes.to_string(foobar{})); }
WIT void wit_to_bar(arr<char, 3> const& x) { bar const b{str(x.data(), 3)}; show(9, routes.to_string(b)); show(0, b.name); }
WIT void wit_to_bar_long(arr<char, 60> const& x) { bar b{str(x.data(), 60)}; show(9, routes.to_string(b)); show(0, b.name); }
WIT void wit_to_bar_gone(arr<char, 60> const& x) { show(9, routes.to_string(bar{str(x.data(), 60)})); }
WIT void wit_to_fo(arr<char, 3> const& x, arr<char, 20> const& y) { show(9, routes.to_string(fo{str(x.data(), 3), str(y.data(), 20), 57})); }
WIT void wit_to_foo(arr<char, 3> const& x) { show(9, routes.to_string(foo{7, str(x.data(), 3)})); }
WIT void wit_to_all(arr<char, 9> const& x) { char const* p = x.data(); auto const c = [&] { return str(p++, 1); };
  all v; v.a = c(); v.b = c(); v.c = c(); v.d = c(); v.e = c(); v.f = c(); v.g = c(); v.h = c(); v.i = c(); show(9, routes.to_string(v)); }

// there and back
WIT void wit_back_fo(arr<char, 3> const& x, arr<char, 5> const& y) { tell(routes.from_string(routes.to_string(fo{str(x.data(), 3), str(y.data(), 5), 57}))); }
WIT void wit_back_foobar() { tell(routes.from_string(routes.to_string(foobar{}))); }
WIT void wit_back_root() { tell(routes.from_string(routes.to_string(""_s))); }

// a value in a variant
WIT void wit_var_bar(arr<char, 3> const& x) { tell(routes.to_variant(bar{str(x.data(), 3)})); }
WIT void wit_var_f(u64 a) { f const v{a}; tell(routes.to_variant(v)); }
WIT void wit_var_root() { tell(routes.to_variant(""_s)); }

// asking for a route
constexpr auto set_route = nbdl::webui::make_set_route(routes);
struct send_to
{
  int n;
  template <typename M>
  void operator()(M const& m) const
  {
    evt_r_sent(n, nbdl::message::is_upstream<M> + 2 * nbdl::message::is_update<M> + 4 * std::is_same_v<std::decay_t<decltype(nbdl::message::get_path(m))>, std::decay_t<decltype(nbdl::webui::nav_route_path)>>);
    tell(nbdl::message::get_payload(m));
  }
};
WIT void wit_set_f(u64 a, int n) { set_route("f"_s)(send_to{n}, f{a}); }
WIT void wit_set_bar(arr<char, 3> const& x, int n) { set_route("Bar"_s)(send_to{n}, bar{str(x.data(), 3)}); }
WIT void wit_set_root(int n) { set_route(""_s)(send_to{n}); }
WIT void wit_set_foobar(int n) { set_route("foo-bar"_s)(send_to{n}); }
