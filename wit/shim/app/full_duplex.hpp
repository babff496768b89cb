// Stand-in for full_duplex: steps run one after another on one thread; who is
// asked what and what a step ends with are events.
#ifndef WIT_FULL_DUPLEX_HPP
#define WIT_FULL_DUPLEX_HPP
#include "../../wit.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <queue>
#include <string>
#include <utility>

namespace wit
{
  void evt_r_end(int chain, int how) noexcept;              // how a chain of steps ended: 0 resolved, 1 an error
  void evt_r_failed(u64 who, int chain) noexcept;           // the endpoint is told of an error
  void evt_r_open(u64 who) noexcept;
  struct opened { void* p; void (*does)(void*, int); };
  inline opened conns[8]; inline int n_conns = 0;       // every endpoint opened, in order
  inline int turns = 2;                                 // how often a loop is gone around
}
namespace full_duplex
{
  namespace hana = boost::hana;
  struct void_input_t { };
  constexpr void_input_t void_input{};
  struct terminate { };
  struct queue_full_t { };
  template <typename X> struct error_t { X value; };
  constexpr auto make_error = [](auto x) { return error_t<decltype(x)>{std::move(x)}; };
  template <typename X> constexpr bool is_error_ = false;
  template <typename X> constexpr bool is_error_<error_t<X>> = true;
  template <typename X> constexpr bool is_error = is_error_<std::decay_t<X>>;

  template <typename F, bool any_> struct step { static constexpr bool any = any_; F f; };
  constexpr auto promise = [](auto f) { return step<decltype(f), false>{std::move(f)}; };
  constexpr auto promise_any = [](auto f) { return step<decltype(f), true>{std::move(f)}; };
  constexpr auto promise_lift = promise;
  template <typename F> struct tap_t
  {
    F f;
    template <typename R, typename X> void operator()(R& r, X&& x) { f(x); r(std::forward<X>(x)); }
  };
  template <typename F> struct map_t
  {
    F f;
    template <typename R, typename X> void operator()(R& r, X&& x)
    {
      if constexpr (std::is_void_v<decltype(f(std::forward<X>(x)))>) { f(std::forward<X>(x)); r(void_input); }
      else r(f(std::forward<X>(x)));
    }
  };
  constexpr auto tap = [](auto f) { return step<tap_t<decltype(f)>, false>{{std::move(f)}}; };
  constexpr auto map = [](auto f) { return step<map_t<decltype(f)>, false>{{std::move(f)}}; };
  constexpr auto map_any = [](auto f) { return step<map_t<decltype(f)>, true>{{std::move(f)}}; };
  template <typename T> struct future
  {
    std::optional<T> v;
    future() = default; future(future&&) = default; future(future const&) { }    // not yet there when copied
    T& operator()(T x) { v.emplace(std::move(x)); return *v; }
  };

  template <typename F, bool a> auto steps_of(step<F, a> s) { return hana::make_tuple(std::move(s)); }
  template <typename ...X> auto steps_of(hana::tuple<X...> s) { return s; }
  template <typename ...X> auto do_(X ...x) { return hana::flatten(hana::make_tuple(steps_of(std::move(x))...)); }

  template <typename X> X& unwrap(X& x) { return x; }
  template <typename X> X& unwrap(std::reference_wrapper<X>& x) { return x.get(); }

  template <typename State, typename Steps, typename End>
  struct running
  {
    State& state; Steps& steps; End& end;
    template <int i> struct resolver
    {
      running& r;
      auto& get_state() const { return r.state; }
      template <typename X> void operator()(X&& x) const { r.template go<i + 1>(std::forward<X>(x)); }
    };
    template <int i, typename X> void go(X&& x)
    {
      if constexpr (i == decltype(hana::size(steps))::value) end(std::forward<X>(x));
      else
      {
        auto& s = hana::at_c<i>(steps);
        if constexpr (is_error<X> and not std::decay_t<decltype(s)>::any) go<i + 1>(std::forward<X>(x));
        else { resolver<i> res{*this}; s.f(res, std::forward<X>(x)); }
      }
    }
  };
  template <typename State, typename Steps, typename X, typename End>
  void run(State& state, Steps&& steps, X&& x, End end) { running<State, std::remove_reference_t<Steps>, End>{state, steps, end}.template go<0>(std::forward<X>(x)); }

  struct ended
  {
    int chain;
    template <typename X> void operator()(X&&) { wit::evt_r_end(chain, is_error<X>); }
  };
  template <typename State, typename ...S>
  void run_async_with_state(State state, S ...s) { run(unwrap(state), do_(std::move(s)...), void_input, ended{7}); }
  // it goes on as long as it resolves: each time around is an event
  template <typename State, typename ...S>
  void run_async_loop_with_state(State state, S ...s)
  { for (int i = 0; i < wit::turns; i++) run(unwrap(state), do_(s...), void_input, ended{10 + i}); }

  namespace event
  {
    template <int k, typename F> struct handler { F f; };
    template <int k> struct name { template <typename F> constexpr auto operator=(F f) const { return handler<k, F>{std::move(f)}; } };
    constexpr name<0> init{}; constexpr name<1> read_message{}; constexpr name<2> write_message{}; constexpr name<3> error{}; constexpr name<4> terminate{};
  }
  constexpr auto endpoint = [](auto ...h) { return hana::make_tuple(std::move(h)...); };
  constexpr auto endpoint_compose = [](auto ...e) { return hana::flatten(hana::make_tuple(std::move(e)...)); };

  template <int k, typename Self, int j, typename F>
  auto of_kind(Self& self, event::handler<j, F> h)
  {
    if constexpr (j != k) return hana::make_tuple();
    else if constexpr (std::is_invocable_v<F, Self&>) return steps_of(h.f(self));
    else return steps_of(std::move(h.f));
  }

  template <typename State, typename Endpoint>
  struct connection
  {
    State state_; Endpoint e; wit::u64 who;
    State& state() { return state_; }
    template <int k> auto steps() { return hana::unpack(e, [&](auto ...h) { return hana::flatten(hana::make_tuple(of_kind<k>(*this, std::move(h))...)); }); }
    template <int k, typename Steps, typename X> void go(Steps&& s, X&& x)
    {
      run(state_, s, std::forward<X>(x),
        [&](auto&& y)
        {
          if constexpr (is_error<decltype(y)> and k != 3) { wit::evt_r_failed(who, k); happens<3>(std::move(y.value)); }
          else wit::evt_r_end(k, is_error<decltype(y)>);
        });
    }
    template <int k, typename X> void happens(X&& x) { go<k>(steps<k>(), std::forward<X>(x)); }
    // one after another by the same steps, which keep what they hold
    template <int k> void twice() { auto s = steps<k>(); wit::evt_r_phase(1); go<k>(s, void_input); wit::evt_r_phase(2); go<k>(s, void_input); }
    void send_message(std::string s) { happens<2>(s); }
  };
  template <typename State, typename Endpoint>
  struct handle
  {
    connection<State, Endpoint>* p = nullptr;
    auto get() const { return p; }
    auto operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
  };
  template <typename State, typename Queue, typename Endpoint>
  handle<State, Endpoint> endpoint_open(State s, Queue, Endpoint e)
  {
    wit::u64 const who = s.stream().id();
    auto* c = new connection<State, Endpoint>{std::move(s), std::move(e), who};
    wit::evt_r_open(who);
    wit::conns[wit::n_conns++] = {c, [](void* p, int k)
    { auto* c = static_cast<connection<State, Endpoint>*>(p); if (k == 1) c->template happens<1>(void_input); else if (k == 11) c->template twice<1>(); else c->template happens<4>(void_input); }};
    c->template happens<0>(void_input);
    return {c};
  }
}
#endif
