#ifndef NET_HPP
#define NET_HPP
#include "net_wit.hpp"
#include <nbdl/message_api.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/variant.hpp>
#include <functional>
#include <iostream>
#include <queue>
#include <algorithm>
namespace net
{
  using wit::u64;
  struct sent { u64 who, text; bool operator==(sent const&) const = default; };
  inline std::vector<sent> written;
  inline std::vector<u64> connected, errors;
  inline std::vector<std::pair<int, u64>> applied;
  inline std::function<bool(int, u64)> fails = [](int, u64) { return false; };
  inline u64 streams = 0, incoming = 0;
  inline int ends = 0, resolved = 0;
}
namespace wit
{
  template <int k> struct msg { static constexpr u64 kind = k; u64 h; };
  struct api_def { };
  struct ctx_tag { };
  struct ctx { using hana_tag = ctx_tag; using tag = api_def; u64 id; };
  using base = nbdl::variant<nbdl::system_message, msg<2>, msg<3>>;
  struct var : base
  {
    using base::base;
    void fill(int k, u64 x) { if (k == 1) value_ = nbdl::system_message{}; else if (k == 2) value_ = msg<2>{x}; else if (k == 3) value_ = msg<3>{x}; }
  };
  inline int evt_r_acceptor(int, u64) noexcept { return 0; }
  inline void evt_r_refused(int) noexcept { }
  inline void evt_r_broken(int, u64) noexcept { }
  inline bool evt_r_fails(int what, u64 who) noexcept { return net::fails(what, who); }
  inline u64 evt_r_new_stream() noexcept { return ++net::streams; }
  inline void evt_r_sent(u64 who, u64 text, u64) noexcept { net::written.push_back({who, text}); }
  inline u64 evt_r_incoming(u64) noexcept { return net::incoming; }
  inline void evt_r_end(int, int) noexcept { net::ends++; }
  inline void evt_r_failed(u64 who, int) noexcept { net::errors.push_back(who); }
  inline void evt_r_open(u64 who) noexcept { net::connected.push_back(who); }
  inline void evt_r_phase(int) noexcept { }
}
namespace nbdl
{
  template <> struct message_api<wit::api_def> { using upstream_variant = wit::var; using downstream_variant = wit::var; };
  template <> struct apply_message_impl<wit::ctx_tag>
  { template <typename C, typename M> static bool apply(C&&, M&& m) { net::applied.emplace_back(int(m.kind), m.h); return true; } };
  template <> struct match_impl<wit::ctx_tag> { template <typename ...X> static void apply(X&&...) { } };
}
#include <nbdl/app/client.hpp>
#include <nbdl/app/server.hpp>
namespace net
{
  using namespace wit;
  using server = nbdl::actor_type<nbdl::app::server, ctx>::type;
  using client = nbdl::actor_type<nbdl::app::client, ctx>::type;
  struct serving
  {
    nbdl::app::io_context io{};
    server s{nbdl::detail::make_actor_initializer(ctx{1}, nbdl::app::server{80, io})};
    void accept(int n) { turns = n; ended_turns = 0; nbdl::consumer_init_impl<nbdl::app::server>::apply(s); }
    template <int k> void tell(u64 x) { nbdl::send_downstream_message_impl<nbdl::app::server>::apply(s, msg<k>{x}); }
  };
  struct joined
  {
    nbdl::app::io_context io{};
    client s{nbdl::detail::make_actor_initializer(ctx{1}, nbdl::app::client{"h:80", io})};
    void connect() { nbdl::producer_init_impl<nbdl::app::client>::apply(s); }
    template <int k> void tell(u64 x) { nbdl::send_upstream_message_impl<nbdl::app::client>::apply(s, msg<k>{x}); }
  };
  inline void leave(int i) { conns[i].does(conns[i].p, 4); }
  inline void hear(int i, u64 text) { incoming = text; conns[i].does(conns[i].p, 1); }
  template <typename ...X> std::vector<sent> all(X ...x) { return {x...}; }
  inline int verdict(bool ok) { if (not ok) std::fprintf(stderr, "not as it should be\n"); return ok ? 0 : 1; }
}
#endif
