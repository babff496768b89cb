// Rendering of user interfaces in a document: every operation on the document is an event.
#pragma once
#include "wit.hpp"
#include <algorithm>
#include <array>
#include <boost/hana.hpp>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <nbdl/message.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>

namespace hana = boost::hana;
using namespace hana::literals;
using namespace wit;
using namespace nbdl::webui::html;
using namespace nbdl::ui_spec;
namespace wit
{
  extern "C" __attribute__((const, nothrow)) u64 js_target();
  extern "C" __attribute__((const, nothrow)) u64 txt(int);
  void evt_r_phase(int) noexcept;
  inline emscripten::val target() { return emscripten::val(emscripten::val::raw{js_target()}); }
  // a text of eight bytes
  [[gnu::always_inline]] inline std::string str(int i) { u64 x = txt(i); return std::string(reinterpret_cast<char const*>(&x), 8); }
  inline auto row_of(std::string t) { return hana::make_map(hana::make_pair("t"_s, t)); }
  template <typename ...R> [[gnu::always_inline]] inline auto rows(R ...r)
  { std::vector<decltype(row_of(std::string{}))> v; v.reserve(sizeof...(R)); (v.push_back(r), ...); return v; }
  template <typename Spec, typename Store> [[gnu::always_inline]] inline auto make(Spec, Store& s)
  { return nbdl::webui::make_renderer<nbdl::webui::renderer<Spec>>(std::ref(s), target()); }
  template <typename R> [[gnu::always_inline]] inline void notify(R& r) { nbdl::notify_state_change(r, hana::type_c<void>); }

  // a store that does actions
  struct book_tag { };
  template <typename S> struct book { using hana_tag = book_tag; S inner; book(S s) : inner(s) { } book(book const&) = delete; template <typename K> auto& operator[](K k) { return inner[k]; } };
  // it is empty after something was made of it
  struct change { int to; change(int x) : to(x) { } change(change const&) = default; change(change&& o) : to(o.to) { o.to = -8; } };
  // a store by its handle, which is empty after it was moved
  struct grip_tag { };
  template <typename S> struct grip
  {
    using hana_tag = grip_tag;
    S* p;
    grip(S& s) : p(&s) { }
    grip(grip const&) = default;
    grip(grip&& o) : p(o.p) { o.p = nullptr; }
  };
  template <typename Spec, typename Store> [[gnu::always_inline]] inline auto hold(Spec, Store& s)
  { return nbdl::webui::make_renderer<nbdl::webui::renderer<Spec>>(grip<Store>(s), target()); }
  void evt_r_handled(int id, int n, u64 a, u64 b) noexcept;
  void evt_r_change(int to) noexcept;
  void evt_r_fire(int i, void const* handler) noexcept;
  void evt_r_fired() noexcept;
  [[gnu::always_inline]] inline u64 shown(std::string const& s) { return js_str(s.data(), s.size()); }
  inline u64 shown(int x) { return js_number(x); }
  inline u64 shown(nbdl::detail::js_val const& x) { return evt_r_js_val_get(&x); }
  template <int id> struct told
  {
    template <typename Send> void operator()(Send&&) const { evt_r_handled(id, 0, 0, 0); }
    template <typename Send, typename A> void operator()(Send&&, A const& a) const { evt_r_handled(id, 1, shown(a), 0); }
    template <typename Send, typename A, typename B> void operator()(Send&&, A const& a, B const& b) const { evt_r_handled(id, 2, shown(a), shown(b)); }
  };
  template <int id, int ...to> struct asks
  {
    template <typename Send, typename ...A> void operator()(Send&& send, A const& ...a) const { told<id>{}(send, a...); int n = 0; ([&] { if (n++ % 2) send(change{to}); else { change c{to}; send(c); if (c.to != to) evt_r_change(-8); } }(), ...); }
  };
  [[gnu::always_inline]] inline void reset() { receiver_count = 0; for (auto& r : receivers) r = {nullptr, nullptr, nullptr}; }
  // every event there is, in turn
  inline void fire(int n)
  {
    for (int i = 0; i < n; ++i)
      if (receivers[i].handler)
      { evt_r_fire(i, receivers[i].handler); nbdl::webui::detail::_nbdl_webui_detail_event_callback(receivers[i].receiver); evt_r_fired(); }
  }
}
namespace nbdl
{
  template <> struct get_impl<wit::book_tag>
  { template <typename S, typename K> static constexpr decltype(auto) apply(S&& s, K&& k) { return nbdl::get(std::forward<S>(s).inner, std::forward<K>(k)); } };
  template <> struct apply_action_impl<wit::book_tag>
  { template <typename S, typename A> static bool apply(S& s, A&& a) { wit::change c(std::forward<A>(a)); wit::evt_r_change(c.to); s.inner["a"_s] = wit::str(c.to); return true; } };
  template <> struct get_impl<wit::grip_tag>
  { template <typename S, typename K> static constexpr decltype(auto) apply(S&& s, K&& k) { if (!s.p) __builtin_trap(); return nbdl::get(*s.p, std::forward<K>(k)); } };
  template <> struct apply_action_impl<wit::grip_tag>
  { template <typename S, typename A> static bool apply(S&& s, A&& a) { if (!s.p) __builtin_trap(); return nbdl::apply_action(*s.p, std::forward<A>(a)); } };
}
