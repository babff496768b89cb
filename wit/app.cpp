// Servers and clients of app/.
#include "wit.hpp"
#include <nbdl/message_api.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/variant.hpp>
#include <list>

// what a list of the standard library does out of line
namespace std { namespace __detail {
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
} }
namespace wit
{
  void evt_r_applied(u64 context, int kind, u64 value) noexcept;
  void evt_r_phase(int) noexcept;
  template <int k> struct msg : tval<k> { static constexpr u64 kind = k; using tval<k>::tval; };
  void evt_r_kept(u64) noexcept;
  struct api_def { };
  struct ctx_tag { };
  struct ctx { using hana_tag = ctx_tag; using tag = api_def; u64 id; };
  using base = nbdl::variant<nbdl::system_message, msg<2>, msg<3>>;
  // what goes up (0) and what goes down (1)
  template <int way_> struct var : base
  {
    static constexpr int way = way_;
    using base::base;
    void fill(int k, u64 x)
    {
      if (k == 1) value_ = nbdl::system_message{};
      else if (k == 2) value_ = msg<2>{x};
      else if (k == 3) value_ = msg<3>{x};
    }
  };
}
namespace nbdl
{
  template <> struct message_api<wit::api_def> { using upstream_variant = wit::var<0>; using downstream_variant = wit::var<1>; };
  template <> struct apply_message_impl<wit::ctx_tag>
  {
    template <typename C, typename M> static bool apply(C&& c, M&& m) { wit::evt_r_applied(c.id, m.kind, m.h); return true; }
  };
  template <> struct match_impl<wit::ctx_tag> { template <typename ...X> static void apply(X&&...) { } };
}
#include <nbdl/app/client.hpp>
#include <nbdl/app/server.hpp>
using namespace wit;
namespace wit
{
  using server = nbdl::actor_type<nbdl::app::server, ctx>::type;
  using client = nbdl::actor_type<nbdl::app::client, ctx>::type;
  struct made
  {
    nbdl::app::io_context io{1};
    server s;
    made(u64 c) : s(nbdl::detail::make_actor_initializer(ctx{c}, nbdl::app::server{80, io})) { }
    void accept(int n) { turns = n; nbdl::consumer_init_impl<nbdl::app::server>::apply(s); }
  };
  // n connections, without a failure
  struct serving
  {
    bool was = (n_conns = 0, calm = true);
    made m;
    serving(u64 c, int n) : m(c) { more(n); }
    void more(int n) { calm = true; m.accept(n); calm = false; }
  };
  template <int k, typename To> void tell(To& to, u64 x) { msg<k> m(x); nbdl::send_downstream_message_impl<nbdl::app::server>::apply(to, m); evt_r_kept(m.h); }
  template <int k, typename To> void tell_up(To& to, u64 x) { msg<k> m(x); nbdl::send_upstream_message_impl<nbdl::app::client>::apply(to, m); evt_r_kept(m.h); }
  void leave(int i) { conns[i].does(conns[i].p, 4); }
  void hear(int i) { conns[i].does(conns[i].p, 1); }
}
WIT void wit_listen(unsigned short port, u64 c)
{ n_conns = 0; calm = false; nbdl::app::io_context io{1}; server s(nbdl::detail::make_actor_initializer(ctx{c}, nbdl::app::server{port, io})); evt_r_phase(1); turns = 2; nbdl::consumer_init_impl<nbdl::app::server>::apply(s); }
// who is accepted is told
WIT void wit_accept(u64 c, u64 x)
{ n_conns = 0; calm = true; made m(c); calm = false; evt_r_phase(1); m.accept(2); evt_r_phase(2); tell<2>(m.s, x); }

// three connections; then what is told, as connections come and go
#define THREE(name, ...) WIT void wit_tell_##name(u64 c, u64 x, u64 y) { serving v(c, 3); auto& s = v.m.s; (void) y; evt_r_phase(1); __VA_ARGS__ }
THREE(all, tell<2>(s, x); evt_r_phase(2); tell<3>(s, y);)
THREE(first, leave(0); evt_r_phase(2); tell<2>(s, x);)
THREE(mid, leave(1); evt_r_phase(2); tell<3>(s, x);)
THREE(last, leave(2); evt_r_phase(2); tell<2>(s, x);)
THREE(twice, leave(1); leave(1); evt_r_phase(2); tell<2>(s, x);)
THREE(one, leave(2); leave(0); evt_r_phase(2); tell<2>(s, x);)
THREE(none, leave(1); leave(0); leave(2); evt_r_phase(2); tell<2>(s, x);)
THREE(five, v.more(2); evt_r_phase(2); tell<2>(s, x);)
THREE(again, leave(0); v.more(1); evt_r_phase(2); tell<2>(s, x);)
WIT void wit_read(u64 c) { serving v(c, 1); evt_r_phase(1); hear(0); }
WIT void wit_read_more(u64 c) { serving v(c, 1); conns[0].does(conns[0].p, 11); }
WIT void wit_read_two(u64 c) { serving v(c, 2); evt_r_phase(1); hear(0); evt_r_phase(2); hear(1); evt_r_phase(3); hear(0); }

namespace wit
{
  struct joined
  {
    nbdl::app::io_context io{1};
    client s;
    joined(u64 c, char const* to = "h:80") : s((n_conns = 0, nbdl::detail::make_actor_initializer(ctx{c}, nbdl::app::client{to, io}))) { }
    void connect() { nbdl::producer_init_impl<nbdl::app::client>::apply(s); }
  };
}
WIT void wit_early(u64 c, u64 x) { joined m(c); evt_r_phase(1); tell_up<2>(m.s, x); }
WIT void wit_connect(u64 c) { joined m(c); calm = false; evt_r_phase(1); m.connect(); }
WIT void wit_ask(u64 c, u64 x, u64 y) { joined m(c); calm = true; m.connect(); calm = false; evt_r_phase(1); tell_up<2>(m.s, x); evt_r_phase(2); tell_up<3>(m.s, y); }
WIT void wit_told(u64 c) { joined m(c); calm = true; m.connect(); calm = false; evt_r_phase(1); hear(0); evt_r_phase(2); hear(0); }
WIT void wit_told_more(u64 c) { joined m(c); calm = true; m.connect(); calm = false; conns[0].does(conns[0].p, 11); }
#define ADDRESS(n, to) WIT void wit_address_##n(u64 c) { joined m(c, to); calm = true; m.connect(); calm = false; }
ADDRESS(0, "h:80") ADDRESS(1, "ab.cd:8080") ADDRESS(2, "ws://ab:80") ADDRESS(3, "http://a.b.c.d:1") ADDRESS(4, "127.0.0:65535") ADDRESS(5, "a-b:http")
