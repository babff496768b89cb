// Texts joined from parts.
#include "wit.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <string>
#include <string_view>
#include <nbdl/match.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/detail/string_concat.hpp>
#include <nbdl/detail/string_concat_view.hpp>
#include <nbdl/ui_helper/params_concat.hpp>

namespace wit
{
  using namespace hana::literals;
  template <typename T, int n> using arr = std::array<T, n>;
  void evt_r_same() noexcept;
  void evt_r_other() noexcept;
  void evt_r_size(int what, u64 n) noexcept;
  void evt_r_len(int what, u64 n) noexcept;
  void evt_r_ch(u64 i, unsigned char c) noexcept;
  template <typename S> [[gnu::always_inline]] inline void show(int what, S const& s)
  { evt_r_len(what, s.size()); for (u64 i = 0; i < s.size(); ++i) evt_r_ch(i, s[i]); }
  template <std::size_t n> [[gnu::always_inline]] inline std::string str(std::array<char, n> const& x) { return std::string(x.data(), n); }
  template <typename ...P> using params = mpdef::list<P...>;
}
using namespace wit;
using nbdl::detail::string_concat;
using nbdl::detail::string_concat_view;
constexpr auto view_of = nbdl::detail::make_string_concat_view;
using nbdl::ui_helper::params_concat;
using nbdl::ui_spec::get;
using a0 = arr<char, 0>; using a1 = arr<char, 1>; using a2 = arr<char, 2>; using a3 = arr<char, 3>; using a5 = arr<char, 5>; using a40 = arr<char, 40>;

// all at once
WIT void wit_all_none() { show(9, string_concat(hana::make_tuple(std::string()))); }
WIT void wit_all_one(a3 const& x) { show(9, string_concat(hana::make_tuple(str(x)))); }
WIT void wit_all_two(a3 const& x, a40 const& y) { auto const t = hana::make_tuple(str(x), str(y)); show(9, string_concat(t)); show(0, t[0_c]); show(1, t[1_c]); }
WIT void wit_all_mixed(a1 const& x, a5 const& y) { show(9, string_concat(hana::make_tuple("<"_s, str(x), ""_s, std::string(), "><"_s, str(y), ">"_s))); }
WIT void wit_all_same(a2 const& x) { show(9, string_concat(hana::make_tuple(str(x), "-"_s, str(x)))); }
WIT void wit_all_consts() { show(9, string_concat(hana::make_tuple("ab"_s, "c"_s))); }
WIT void wit_all_nul(a2 const& x) { show(9, string_concat(hana::make_tuple(hana::string<'a', 0, 'b'>{}, str(x), hana::string<0>{}, "c"))); }
WIT void wit_all_views(a3 const& x, a2 const& y) { arr<std::string_view, 3> v{{std::string_view(x.data(), 3), "+", std::string_view(y.data(), 2)}}; show(9, string_concat.with_views(v)); }

// views
[[gnu::always_inline]] inline void both(string_concat_view const& v) { show(9, v.to_string()); evt_r_size(9, v.length()); }
WIT void wit_view_none() { both(string_concat_view{}); }
WIT void wit_view_nothing() { both(view_of()); }
WIT void wit_view_one(a3 const& x) { auto const s = str(x); both(view_of(s)); show(0, s); }
WIT void wit_view_const() { both(view_of("abc"_s)); }
WIT void wit_view_nbdl(a3 const& x) { nbdl::string const s(x.data(), 3); both(view_of(s)); }
WIT void wit_view_ref(a3 const& x) { auto const s = str(x); both(view_of(std::cref(s), "!"_s)); }
WIT void wit_view_two(a3 const& x, a5 const& y) { auto const s = str(x), t = str(y); both(view_of(s, t)); }
WIT void wit_view_mixed(a1 const& x, a5 const& y) { auto const s = str(x), t = str(y), e = std::string(); both(view_of("<"_s, s, ""_s, e, "><"_s, t, ">"_s)); }
WIT void wit_view_nested(a2 const& x, a3 const& y) { auto const s = str(x), t = str(y); auto const in = view_of("("_s, s, ")"_s); both(view_of(in, "-"_s, t, view_of(t, in))); }
WIT void wit_view_copy(a2 const& x, a3 const& y) { auto const s = str(x), t = str(y); auto v = view_of(s, t); auto const w = v; v = view_of(t); both(w); both(v); }
WIT void wit_view_moved(a2 const& x, a3 const& y) { auto const s = str(x), t = str(y); auto v = view_of(s, t); auto const w = std::move(v); both(w); }
WIT void wit_view_late(a2 const& x, a2 const& y) { auto s = str(x); auto const v = view_of("a"_s, s); s[0] = y[0]; s[1] = y[1]; both(v); }
// copies in the middle of another text
WIT void wit_view_into(a2 const& x) { auto const s = str(x); auto const v = view_of(s, ":"_s); std::string r("......"); v.copy(r.begin() + 1); show(9, r); }

// the same text, as is
[[gnu::always_inline]] inline void same(string_concat_view const& v, std::string const& s) { evt_r_size(9, v.length()); if (v.equal(s.begin())) evt_r_same(); else evt_r_other(); }
WIT void wit_same_one(a3 const& x, a3 const& y) { auto const s = str(x), t = str(y); same(view_of(s), t); }
WIT void wit_same_two(a1 const& x, a2 const& y, a3 const& z) { auto const s = str(x), t = str(y), u = str(z); same(view_of(s, t), u); }
WIT void wit_same_mid(a1 const& x, a1 const& y, a5 const& z) { auto const s = str(x), t = str(y), u = str(z); same(view_of("<"_s, s, ">"_s, t, "."_s), u); }
WIT void wit_same_nested(a1 const& x, a2 const& y, a5 const& z) { auto const s = str(x), t = str(y), u = str(z); same(view_of(view_of(s, "-"_s), t, view_of(s)), u); }
WIT void wit_same_empty(a2 const& x, a1 const& y, a3 const& z) { auto const s = str(x), t = str(y), u = str(z), e = std::string(); same(view_of(s, e, ""_s, t), u); }
WIT void wit_same_first(a2 const& x, a1 const& y, a3 const& z) { auto const s = str(x), t = str(y), u = str(z), e = std::string(); same(view_of(e, view_of(e, s), view_of(""_s, e), view_of(t, e)), u); }
WIT void wit_same_none(a3 const& z) { auto const u = str(z); same(string_concat_view{}, u); }

// parameters of a page
#define STORE(...) auto const store = hana::make_map(__VA_ARGS__)
#define P(k, v) hana::make_pair(k, v)
WIT void wit_par_consts() { STORE(P("k"_s, 1)); both(params_concat(mpdef::make_list("a"_s, "bc"_s, "d"_s), store)); }
WIT void wit_par_one(a3 const& x) { STORE(P("k"_s, str(x))); both(params_concat(mpdef::make_list(get("k"_s)), store)); }
WIT void wit_par_paths(a3 const& x, a2 const& y) { STORE(P("k"_s, str(x)), P("m"_s, hana::make_map(P("n"_s, str(y))))); both(params_concat(mpdef::make_list("<"_s, get("k"_s), "/"_s, get("m"_s, "n"_s), ">"_s, get("k"_s)), store)); }
