// Promises: order and values of pipes, rejection, lifetime of asynchronous runs, held values.
#include "wit.hpp"
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <functional>
#include <new>
#include <stdexcept>

namespace wit
{
  using V = tval<1>;
  template <int i> u64 evt_step(u64 step, int n, u64 a, u64 b) noexcept;
  template <int i> u64 evtx_step(u64 step, int n, u64 a, u64 b);
  template <int i> int evt_choose() noexcept;      // what an opaque step decides to do
  template <int i> void evt_caught(int type, u64 v) noexcept;
  template <int i> void evt_note(u64 a, u64 b) noexcept;
  template <int i> void evt_kill(u64 v) noexcept;
  void evt_resume() noexcept;
  void evt_done() noexcept;

  inline u64 at(int) { return 0; }
  template <typename T, typename ...R> u64 at(int i, T const& t, R const& ...r) { return i == 0 ? t.h : at(i - 1, r...); }

  // plain steps; id is state of the step itself
  template <int i> struct f { u64 id; template <typename ...A> V operator()(A&& ...a) const { return V(evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...))); } };
  template <int i> struct fv { u64 id; template <typename ...A> void operator()(A&& ...a) const { evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); } };
  // takes its argument by value: whatever it gets must not be moved from before, and be movable
  template <int i> struct fm { u64 id; V operator()(V a) const { return V(evt_step<i>(id, 1, a.h, 0)); } };
  template <int i> struct fx { u64 id; template <typename ...A> V operator()(A&& ...a) const { return V(evtx_step<i>(id, sizeof...(a), at(0, a...), at(1, a...))); } };
  template <int i> struct fxv { u64 id; template <typename ...A> void operator()(A&& ...a) const { evtx_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); } };
  // promises resolving with one, two or no values
  template <int i> auto two(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); r.resolve(V(x), V(x + 1)); }); }
  template <int i> auto none(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); r.resolve(); }); }
  // a promise that calls its resolver as a function
  template <int i> auto call(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); r(V(x)); }); }

#define RUNS(NAME, ...) \
  WIT void wit_sync_##NAME(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_sync(__VA_ARGS__, V(x)); evt_done(); } \
  WIT void wit_async_##NAME(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_async(__VA_ARGS__, V(x)); evt_done(); } \
  WIT void wit_lvalue_##NAME(u64 x, u64 i1, u64 i2, u64 i3) { auto p = __VA_ARGS__; V const v(x); nbdl::run_sync(p, v); nbdl::run_sync(p, v); evt_note<9>(v.h, 0); evt_done(); }
  RUNS(plain, nbdl::pipe(f<1>{i1}, f<2>{i2}, f<3>{i3}))
  RUNS(single, nbdl::pipe(fm<1>{i1}))
  RUNS(move, nbdl::pipe(fm<1>{i1}, fm<2>{i2}, fm<3>{i3}))
  RUNS(args, nbdl::pipe(two<1>(i1), f<2>{i2}, fv<3>{i3}, f<4>{i1}, none<5>(i2), fv<6>{i3}))
  RUNS(call, nbdl::pipe(call<1>(i1), two<2>(i2), fv<3>{i3}, call<4>(i1)))
  RUNS(callend, nbdl::pipe(f<1>{i1}, call<2>(i2)))
  RUNS(callonly, call<1>(i1))
  RUNS(nest, nbdl::pipe(nbdl::pipe(f<1>{i1}, two<2>(i2)), f<3>{i3}, nbdl::pipe(nbdl::pipe(f<4>{i1}), none<5>(i2), f<6>{i3})))
  RUNS(tap, nbdl::pipe(f<1>{i1}, nbdl::tap(fv<2>{i2}), fm<3>{i3}, nbdl::tap(f<4>{i1}), f<5>{i2}))
  RUNS(tapm, nbdl::pipe(f<1>{i1}, nbdl::tap(fm<2>{i2}), fm<3>{i3}, nbdl::tap(fm<4>{i1}), nbdl::tap(f<5>{i2}), fm<6>{i3}))
  RUNS(pass, nbdl::pipe(two<1>(i1), nbdl::catch_([](V const& v) { evt_caught<1>(0, v.h); }), nbdl::tap(fv<2>{i2}), f<3>{i3}))
  WIT void wit_lvaluea_prom(u64 x, u64 i1, u64 i2, u64 i3)
  { auto p = nbdl::pipe(two<1>(i1), call<2>(i2), nbdl::tap(fv<3>{i3}), nbdl::pipe(none<4>(i1), call<5>(i2))); V const v(x); nbdl::run_async(p, v); nbdl::run_async(p, v); evt_note<9>(v.h, 0); evt_done(); }
  WIT void wit_sync_ref(u64 x, u64 i1, u64 i2, u64 i3) { f<1> a{i1}; f<2> b{i2}; nbdl::run_sync(nbdl::pipe(std::ref(a), std::ref(b), f<3>{i3}), V(x)); evt_done(); }
  WIT void wit_sync_single1(u64 x, u64 i1) { nbdl::run_sync(two<1>(i1), V(x)); evt_done(); }
  WIT void wit_async_single1(u64 x, u64 i1) { nbdl::run_async(two<1>(i1), V(x)); evt_done(); }
  WIT void wit_async_noarg(u64 i1, u64 i2) { nbdl::run_async(nbdl::pipe(f<1>{i1}, f<2>{i2})); evt_done(); }
  WIT void wit_sync_noarg(u64 i1, u64 i2) { nbdl::run_sync(nbdl::pipe(f<1>{i1}, f<2>{i2})); evt_done(); }

  // references go through untouched
  WIT void wit_sync_refarg(u64 x)
  {
    V v(x);
    nbdl::run_sync(nbdl::pipe([](V& a) -> V& { a.h = a.h + 1; return a; }, nbdl::tap([](V& a) { a.h = a.h * 3; }), [&v](V& a) { evt_note<1>(u64(&a == &v), a.h); }), v);
    evt_note<2>(v.h, 0);
  }

  // a step that answers later, or never
  // erased handle of a resolver
  struct handle
  {
    void* p; void (*go)(void*, u64); void (*end)(void*); void (*rej)(void*, u64);
    template <bool can_reject = true, typename R> void set(R& r)
    {
      p = &r;
      go = [](void* q, u64 x) { static_cast<R*>(q)->resolve(V(x)); };
      end = [](void* q) { static_cast<R*>(q)->terminate(); };
      if constexpr (can_reject) rej = [](void* q, u64 x) { static_cast<R*>(q)->reject(tval<7>(x)); };
    }
  };
  template <int i> auto wait(handle& h)
  { return nbdl::promise([&h](auto& r, auto&& ...a) { evt_step<i>(0, sizeof...(a), at(0, a...), at(1, a...)); h.set(r); }); }
  template <int i> auto wait_nr(handle& h)
  { return nbdl::promise([&h](auto& r, auto&& ...a) { evt_step<i>(0, sizeof...(a), at(0, a...), at(1, a...)); h.set<false>(r); }); }
  template <int i> auto c7() { return nbdl::catch_([](tval<7> const& v) { evt_caught<i>(7, v.h); }); }
  template <int i> auto c8() { return nbdl::catch_([](tval<8> const& v) { evt_caught<i>(8, v.h); }); }
  template <int i> auto c7m() { return nbdl::catch_([](tval<7> v) { evt_caught<i>(7, v.h); }); }

  // 0: resumed with a value, 1: terminated, 2: rejected, 3: never answered
#define LATE(HOW) \
  WIT void wit_late_##HOW(u64 x, u64 i1, u64 i2, u64 y) \
  { handle h; nbdl::run_async(nbdl::pipe(f<1>{i1}, wait<2>(h), f<3>{i2}, c7<4>()), V(x)); evt_resume(); \
    if (HOW == 0) h.go(h.p, y); if (HOW == 1) h.end(h.p); if (HOW == 2) h.rej(h.p, y); evt_done(); }
  LATE(0) LATE(1) LATE(2) LATE(3)
  WIT void wit_late_two(u64 x, u64 i1, u64 i2, u64 y)
  { handle h, g; nbdl::run_async(nbdl::pipe(wait<1>(h), f<2>{i1}, wait<3>(g), f<4>{i2}, c7<5>()), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); g.go(g.p, y + 1); evt_done(); }

  // rejection: a step that resolves or rejects with one of two types
  template <int i> auto any(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) {
      u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...));
      switch (evt_choose<i>()) { case 0: r.resolve(V(x)); break; case 1: r.reject(tval<7>(x)); break; case 2: r.reject(tval<8>(x)); break; case 3: r.terminate(); break; default: break; } }); }
#define REJ(NAME, ...) \
  WIT void wit_rejs_##NAME(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_sync(__VA_ARGS__, V(x)); evt_done(); } \
  WIT void wit_reja_##NAME(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_async(__VA_ARGS__, V(x)); evt_done(); }
  REJ(line, nbdl::pipe(c7<1>(), any<2>(i1), f<3>{i2}, c8<4>(), f<5>{i3}, c7m<6>(), f<7>{i1}, c8<8>(), c7<9>()))
  REJ(twice, nbdl::pipe(any<1>(i1), c7<2>(), any<3>(i2), c8<4>(), nbdl::tap(fv<5>{i3}), c7<6>()))
  REJ(nest, nbdl::pipe(nbdl::pipe(any<1>(i1), c7<2>(), f<3>{i2}), f<4>{i3}, nbdl::pipe(c8<5>(), f<6>{i1})))
  REJ(hold, nbdl::pipe(any<1>(i1), nbdl::hold(V(5)), f<2>{i2}, c8<3>(), c7<4>()))

  // rejection with two values: taken by a handler of two, passed on by a handler of one
  template <int i> auto any2(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); if (evt_choose<i>() == 0) r.resolve(V(x)); else r.reject(tval<7>(x), V(x + 1)); }); }
  template <int i> auto c71() { return nbdl::catch_([](tval<7> const& v, V const& w) { evt_caught<i>(71, v.h); evt_note<i>(w.h, 0); }); }
  REJ(multi, nbdl::pipe(any2<1>(i1), c7<2>(), f<3>{i2}, c71<4>()))

  // what is rejected as an lvalue, a constant or an rvalue goes to the first handler that can be called with it
  template <int kind> auto taker()
  {
    if constexpr (kind == 0) return [](tval<7> const& v) { evt_caught<1>(kind, v.h); };
    else if constexpr (kind == 1) return [](tval<7>& v) { evt_caught<1>(kind, v.h); v.h = v.h + 1; };
    else if constexpr (kind == 2) return [](tval<7>&& v) { evt_caught<1>(kind, v.h); };
    else if constexpr (kind == 3) return [](tval<7> v) { evt_caught<1>(kind, v.h); };
    else return [](auto&& v) { evt_caught<1>(kind, v.h); };
  }
  template <int cat> auto give(tval<7>& e)
  { return nbdl::promise([&e](auto&& r, auto&&...) { if constexpr (cat == 0) r.reject(e); else if constexpr (cat == 1) r.reject(std::as_const(e)); else r.reject(std::move(e)); }); }
#define CAT2(c, k) \
  WIT void wit_cats_##c##_##k(u64 x, u64 i1) { tval<7> e(x); nbdl::run_sync(nbdl::pipe(f<1>{i1}, give<c>(e), nbdl::catch_(taker<k>()), f<2>{i1}, nbdl::catch_([](auto&& v) { evt_caught<2>(9, v.h); })), V(x)); evt_note<9>(e.h, 0); evt_done(); } \
  WIT void wit_cata_##c##_##k(u64 x, u64 i1) { tval<7> e(x); nbdl::run_async(nbdl::pipe(f<1>{i1}, give<c>(e), nbdl::catch_(taker<k>()), f<2>{i1}, nbdl::catch_([](auto&& v) { evt_caught<2>(9, v.h); })), V(x)); evt_note<9>(e.h, 0); evt_done(); }
#define CAT(c) CAT2(c, 0) CAT2(c, 1) CAT2(c, 2) CAT2(c, 3) CAT2(c, 4)
  CAT(0) CAT(1) CAT(2)

  // exceptions become rejections
  WIT void wit_try_fn(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_sync(nbdl::pipe(f<1>{i1}, nbdl::try_(fx<2>{i2}), f<3>{i3}, nbdl::catch_([](std::exception const&) { evt_caught<4>(0, 0); })), V(x)); evt_done(); }
  WIT void wit_try_void(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_sync(nbdl::pipe(f<1>{i1}, nbdl::try_(fxv<2>{i2}), f<3>{i3}, nbdl::catch_([](std::exception const&) { evt_caught<4>(0, 0); })), V(x)); evt_done(); }
  WIT void wit_trya_fn(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_async(nbdl::pipe(f<1>{i1}, nbdl::try_(fx<2>{i2}), f<3>{i3}, nbdl::catch_([](std::exception const&) { evt_caught<4>(0, 0); })), V(x)); evt_done(); }

  // held values: the same object every time, owned by the promise
  WIT void wit_hold(u64 x, u64 i1)
  { V const v(x); nbdl::run_sync(nbdl::pipe(nbdl::hold(v), [](V& a) -> V& { evt_note<1>(a.h, 0); a.h = a.h + 1; return a; }, [](V& a) { evt_note<2>(a.h, 0); }), V(i1)); evt_note<3>(v.h, 0); }

  WIT void wit_loop_hold(u64 x, u64 i1, u64 y)
  { handle h; V const v(x); nbdl::run_async_loop(nbdl::pipe(nbdl::hold(v), [](V& a) { evt_note<1>(a.h, 0); a.h = a.h + 1; }, wait<2>(h), c7<4>()), V(i1)); evt_resume(); h.go(h.p, y); evt_resume(); h.go(h.p, y); evt_resume(); h.end(h.p); evt_note<3>(v.h, 0); evt_done(); }

  // objects made by hold_lazy
  struct obj
  {
    u64 h; obj* self;
    explicit obj(u64 x) : h(x), self(this) { evt_note<10>(x, 0); }
    obj(obj const&) = delete;
    ~obj() { evt_kill<1>(h); if (self != this) evt_kill<2>(h); }
  };
  template <int i> auto lazy(handle& h)
  { return nbdl::hold_lazy([&h](auto& r, V const& v) { evt_step<i>(0, 1, v.h, 0); h.set(r); return obj(v.h); }, nbdl::lazy_args<V const&>); }
  WIT void wit_lazy_0(u64 x, u64 i1, u64 y) { handle h; nbdl::run_async(nbdl::pipe(f<1>{i1}, lazy<2>(h), f<3>{i1}, c7<4>()), V(x)); evt_resume(); h.go(h.p, y); evt_done(); }
  WIT void wit_lazy_1(u64 x, u64 i1, u64 y) { handle h; nbdl::run_async(nbdl::pipe(f<1>{i1}, lazy<2>(h), f<3>{i1}, c7<4>()), V(x)); evt_resume(); h.end(h.p); evt_done(); }
  WIT void wit_lazy_2(u64 x, u64 i1, u64 y) { handle h; nbdl::run_async(nbdl::pipe(f<1>{i1}, lazy<2>(h), f<3>{i1}, c7<4>()), V(x)); evt_resume(); h.rej(h.p, y); evt_done(); }
  WIT void wit_lazy_never(u64 x, u64 i1, u64 y) { handle h; nbdl::run_async(nbdl::pipe(wait<1>(h), lazy<2>(h), f<3>{i1}, c7<4>()), V(x)); evt_resume(); h.end(h.p); evt_done(); }

  // loops
  WIT void wit_loop(u64 x, u64 i1, u64 y)
  { handle h; nbdl::run_async_loop(nbdl::pipe(f<1>{i1}, wait<2>(h), fm<3>{i1}, c7<4>()), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); h.go(h.p, y + 1); evt_resume(); h.end(h.p); evt_done(); }
  // the last step calls its resolver as a function
  WIT void wit_loop_call(u64 x, u64 i1, u64 y)
  { handle h; nbdl::run_async_loop(nbdl::pipe(f<1>{i1}, wait_nr<2>(h), call<3>(i1)), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); h.end(h.p); evt_done(); }
  WIT void wit_loop_rej(u64 x, u64 i1, u64 y)
  { handle h; nbdl::run_async_loop(nbdl::pipe(f<1>{i1}, wait<2>(h), fm<3>{i1}, c7<4>()), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); h.rej(h.p, y); evt_done(); }
  WIT void wit_loop_lvalue(u64 x, u64 i1, u64 y)
  { handle h; auto const p = nbdl::pipe(call<1>(i1), wait<2>(h), call<3>(i1), c7<4>()); V const v(x); nbdl::run_async_loop(p, v); evt_resume(); h.end(h.p); nbdl::run_async_loop(p, v); evt_resume(); h.end(h.p); evt_done(); }
  WIT void wit_loop_lazy(u64 x, u64 i1, u64 y)
  { handle h; nbdl::run_async_loop(nbdl::pipe(f<1>{i1}, lazy<2>(h), f<3>{i1}, c7<4>()), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); h.go(h.p, y + 1); evt_resume(); h.end(h.p); evt_done(); }

  // ---- values stay values and references stay references ---------------------
  template <int i> void evt_cat(int pos, int category, u64 v) noexcept;      // 0 lvalue, 1 constant lvalue, 2 rvalue, 3 constant rvalue
  template <typename T> constexpr int cat_of = std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0) : std::is_const_v<std::remove_reference_t<T>> ? 3 : 2;
  template <int i, typename ...A> void cats(A&& ...a) { int n = 0; (evt_cat<i>(n++, cat_of<A&&>, a.h), ...); }
  template <int i> struct fc { u64 id; template <typename ...A> V operator()(A&& ...a) const { cats<i>(std::forward<A>(a)...); return V(evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...))); } };
  template <int i> auto pc(u64 id)      // a promise resolving with a value, a reference and a constant
  { return nbdl::promise([id](auto&& r, auto&& ...a) { cats<i>(std::forward<decltype(a)>(a)...); u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); V v(x + 1); r.resolve(V(x), v); }); }
  template <int i> auto pr(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { cats<i>(std::forward<decltype(a)>(a)...); u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); V const v(x); r.resolve(v); }); }
#define CATS nbdl::pipe(fc<1>{i1}, pc<2>(i2), nbdl::catch_([](tval<7> const&) { }), fc<3>{i3}, nbdl::tap([](auto const&) { }), pr<4>(i1), nbdl::pipe(fc<5>{i2}, call<6>(i1)), pc<7>(i3), nbdl::tap([](auto&&...) { }), fc<8>{i2})
  WIT void wit_cs_val(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_sync(CATS, V(x)); evt_done(); }
  WIT void wit_ca_val(u64 x, u64 i1, u64 i2, u64 i3) { nbdl::run_async(CATS, V(x)); evt_done(); }
  WIT void wit_cs_ref(u64 x, u64 i1, u64 i2, u64 i3) { V v(x); nbdl::run_sync(CATS, v); evt_note<9>(v.h, 0); evt_done(); }
  WIT void wit_ca_ref(u64 x, u64 i1, u64 i2, u64 i3) { V v(x); nbdl::run_async(CATS, v); evt_note<9>(v.h, 0); evt_done(); }
  WIT void wit_cs_con(u64 x, u64 i1, u64 i2, u64 i3) { V const v(x); nbdl::run_sync(CATS, v); evt_note<9>(v.h, 0); evt_done(); }
  WIT void wit_ca_con(u64 x, u64 i1, u64 i2, u64 i3) { V const v(x); nbdl::run_async(CATS, v); evt_note<9>(v.h, 0); evt_done(); }
#define LCATS nbdl::pipe(pr<1>(i1), wait<2>(h), pc<3>(i1), c7<4>())
  WIT void wit_cl_val(u64 x, u64 i1, u64 y) { handle h; nbdl::run_async_loop(nbdl::pipe(pc<1>(i1), fc<2>{i1}, wait<3>(h), fc<4>{i1}, nbdl::tap([](auto&&...) { }), c7<5>()), V(x)); evt_resume(); h.go(h.p, y); evt_resume(); h.end(h.p); evt_done(); }
  WIT void wit_cl_ref(u64 x, u64 i1, u64 y) { handle h; V v(x); nbdl::run_async_loop(nbdl::pipe(pc<1>(i1), fc<2>{i1}, wait<3>(h), fc<4>{i1}, nbdl::tap([](auto&&...) { }), c7<5>()), v); evt_resume(); h.go(h.p, y); evt_resume(); h.end(h.p); evt_note<9>(v.h, 0); evt_done(); }

  // ---- steps that own something: a stored pipe keeps it, run after run --------
  template <int i> struct fo { V own; explicit fo(u64 x) : own(x) { } template <typename ...A> V operator()(A&& ...a) const { return V(evt_step<i>(own.h, sizeof...(a), at(0, a...), at(1, a...))); } };
  template <int i> auto po(u64 id)
  { return nbdl::promise([own = V(id)](auto&& r, auto&& ...a) { u64 x = evt_step<i>(own.h, sizeof...(a), at(0, a...), at(1, a...)); r.resolve(V(x)); }); }
  WIT void wit_keep_sync(u64 x, u64 i1, u64 i2, u64 i3)
  { auto p = nbdl::pipe(fo<1>(i1), po<2>(i2), nbdl::tap(fo<3>(i3)), nbdl::pipe(fo<4>(i1), po<5>(i2)), nbdl::try_(fo<6>(i3)), nbdl::catch_([](std::exception const&) { }));
    nbdl::run_sync(p, V(x)); nbdl::run_sync(p, V(x)); nbdl::run_sync(std::as_const(p), V(x)); evt_done(); }
  WIT void wit_keep_async(u64 x, u64 i1, u64 i2, u64 i3)
  { auto p = nbdl::pipe(po<1>(i1), po<2>(i2), nbdl::tap(fo<3>(i3)), nbdl::pipe(po<4>(i1), po<5>(i2)), nbdl::try_(fo<6>(i3)), nbdl::catch_([](std::exception const&) { }));
    nbdl::run_async(p, V(x)); nbdl::run_async(p, V(x)); nbdl::run_async(std::as_const(p), V(x)); evt_done(); }
  WIT void wit_keep_step(u64 x, u64 i1, u64 i2, u64 i3)      // a step that is named and used again
  { fo<1> const f1(i1); fo<2> f2(i2); fo<3> f3(i3);
    nbdl::run_sync(nbdl::pipe(f1, f2, nbdl::tap(f3), nbdl::try_(f2), nbdl::catch_([](std::exception const&) { })), V(x));
    evt_note<1>(f1.own.h, 0); evt_note<2>(f2.own.h, 0); evt_note<3>(f3.own.h, 0); evt_done(); }
  WIT void wit_keep_stepa(u64 x, u64 i1, u64 i2, u64 i3)
  { fo<1> const f1(i1); fo<2> f2(i2); fo<3> f3(i3);
    nbdl::run_async(nbdl::pipe(f1, f2, nbdl::tap(f3), nbdl::try_(f2), nbdl::catch_([](std::exception const&) { })), V(x));
    evt_note<1>(f1.own.h, 0); evt_note<2>(f2.own.h, 0); evt_note<3>(f3.own.h, 0); evt_done(); }
  WIT void wit_keep_single(u64 x, u64 i1) { auto p = po<1>(i1); nbdl::run_sync(p, V(x)); nbdl::run_sync(p, V(x)); nbdl::run_async(p, V(x)); nbdl::run_sync(p, V(x)); evt_done(); }
  WIT void wit_keep_hold(u64 x, u64 i1)
  { V v(x); nbdl::run_sync(nbdl::pipe(nbdl::hold(v), [](V& a) -> V& { evt_note<1>(a.h, 0); a.h = a.h + 1; return a; }, [](V& a) { evt_note<2>(a.h, 0); }), V(i1)); evt_note<3>(v.h, 0); }

  // ---- rejections without values, handlers that own something -----------------
  template <int i> auto any0(u64 id)
  { return nbdl::promise([id](auto&& r, auto&& ...a) { u64 x = evt_step<i>(id, sizeof...(a), at(0, a...), at(1, a...)); switch (evt_choose<i>()) { case 0: r.resolve(V(x)); break; case 1: r.reject(); break; default: break; } }); }
  template <int i> auto c0() { return nbdl::catch_([] { evt_caught<i>(70, 0); }); }
  REJ(none, nbdl::pipe(any0<1>(i1), c7<2>(), nbdl::hold(V(5)), f<3>{i2}, c0<4>(), f<5>{i3}, c0<6>()))
  template <int i> struct on_ { V own; void operator()(tval<7> const& e) const { evt_caught<i>(7, e.h); evt_note<i>(own.h, 0); } };
  template <int i> auto co(u64 id) { return nbdl::catch_(on_<i>{V(id)}); }
  WIT void wit_own_catch(u64 x, u64 i1, u64 y) { handle h; { nbdl::run_async(nbdl::pipe(wait<1>(h), f<2>{i1}, co<3>(i1), fo<4>(i1)), V(x)); } evt_resume(); h.rej(h.p, y); evt_done(); }
  WIT void wit_own_named(u64 x, u64 i1, u64 y) { handle h; on_<3> c{V(i1)}; nbdl::run_async(nbdl::pipe(wait<1>(h), f<2>{i1}, nbdl::catch_(c), fo<4>(i1)), V(x)); evt_note<8>(c.own.h, 0); c.own.h = x; evt_resume(); h.rej(h.p, y); evt_note<9>(c.own.h, 0); evt_done(); }
  WIT void wit_own_const(u64 x, u64 i1, u64 y) { handle h; { on_<3> const c{V(i1)}; nbdl::run_async(nbdl::pipe(wait<1>(h), nbdl::catch_(c)), V(x)); } evt_resume(); h.rej(h.p, y); evt_done(); }
  WIT void wit_own_loop(u64 x, u64 i1, u64 y) { handle h; { nbdl::run_async_loop(nbdl::pipe(wait<1>(h), fo<2>(i1), co<3>(i1), fo<4>(i1)), V(x)); } evt_resume(); h.go(h.p, y); evt_resume(); h.rej(h.p, y); evt_done(); }

  // ---- which exception --------------------------------------------------------
  void evt_r_exc(void const*) noexcept;
#define TRYX(NAME, RUN, STEP) \
  WIT void wit_tryx_##NAME(u64 x, u64 i1) { nbdl::RUN(nbdl::pipe(nbdl::try_(STEP<1>{i1}), nbdl::catch_([](std::exception const& e) { evt_r_exc(&e); })), V(x)); evt_done(); }
  TRYX(sync, run_sync, fx) TRYX(syncv, run_sync, fxv) TRYX(async, run_async, fx) TRYX(asyncv, run_async, fxv)
}
