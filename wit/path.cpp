// Promises of paths, ranges of stores.
#include "wit.hpp"
#include <array>
#include <nbdl/catch.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/variant.hpp>

namespace wit
{
  using namespace hana::literals;
  // told: 1 resolved, 2 rejected; what kind of value; which one
  void evt_r_told(int how, int kind, u64 which) noexcept;
  void evt_r_item(int kind, u64 which) noexcept;
  void evt_r_same(int n, bool) noexcept;

  struct first { u64 h; };
  struct last { u64 h; };
  struct other { u64 h; };
  using name_t = hana::tuple<first, last>;
  using choice = nbdl::variant<last, first, other>;
  struct person { name_t name; choice pick; };
  struct account { u64 id; nbdl::optional<person> who; };
  struct guest { u64 id; };
  using user = nbdl::variant<account, guest>;

  constexpr auto name_s = "name"_s;
  constexpr auto pick_s = "pick"_s;
  constexpr auto who_s = "who"_s;
  constexpr auto id_s = "id"_s;
  template <auto& s> using k = std::decay_t<decltype(s)>;
}
namespace nbdl
{
  NBDL_ENTITY(wit::person, name, pick);
  NBDL_ENTITY(wit::account, id, who);
  NBDL_ENTITY(wit::guest, id);
}
namespace wit
{
  using namespace nbdl::ui_spec;
  struct look
  {
    int how;
    void operator()(first const& x) const { evt_r_told(how, 1, x.h); }
    void operator()(last const& x) const { evt_r_told(how, 2, x.h); }
    void operator()(other const& x) const { evt_r_told(how, 3, x.h); }
    void operator()(person const& x) const { evt_r_told(how, 4, hana::at_c<0>(x.name).h); }
    void operator()(account const& x) const { evt_r_told(how, 5, x.id); }
    void operator()(guest const& x) const { evt_r_told(how, 6, x.id); }
    void operator()(nbdl::nothing) const { evt_r_told(how, 7, 0); }
    void operator()(nbdl::unresolved) const { evt_r_told(how, 8, 0); }
    void operator()(u64 const& x) const { evt_r_told(how, 9, x); }
    template <typename T> void operator()(T const&) const { evt_r_told(how, 10, 0); }
  };
  template <typename ...Xs, typename S>
  void run(path_t<Xs...> p, S const& s)
  {
    nbdl::run_sync(nbdl::pipe([&]() -> S const& { return s; }, nbdl::path_promise(p), nbdl::tap([](auto const& x) { look{1}(x); }), nbdl::catch_([](auto const& x) { look{2}(x); })));
  }
}
using namespace wit;


// what there is: nothing yet, a guest, an account of nobody, an account of a person who picked nothing yet, a last, a first, another
namespace wit
{
  struct state { u64 id, f, l, p; };
  inline person person_of(state const& v, choice c) { return {name_t{first{v.f}, last{v.l}}, c}; }
  template <int n> user user_of(state const& v)
  {
    if constexpr (n == 0) return user{};
    else if constexpr (n == 1) return user{guest{v.id}};
    else if constexpr (n == 2) return user{account{v.id, {}}};
    else if constexpr (n == 3) return user{account{v.id, person_of(v, choice{})}};
    else if constexpr (n == 4) return user{account{v.id, person_of(v, choice{last{v.p}})}};
    else if constexpr (n == 5) return user{account{v.id, person_of(v, choice{first{v.p}})}};
    else return user{account{v.id, person_of(v, choice{other{v.p}})}};
  }
}
#define AT(name, n, ...) WIT void wit_path_##name##_##n(u64 id, u64 f, u64 l, u64 p) { user const s = user_of<n>({id, f, l, p}); run(path_t<__VA_ARGS__>{}, s); }
#define PATH(name, ...) AT(name, 0, __VA_ARGS__) AT(name, 1, __VA_ARGS__) AT(name, 2, __VA_ARGS__) AT(name, 3, __VA_ARGS__) \
  AT(name, 4, __VA_ARGS__) AT(name, 5, __VA_ARGS__) AT(name, 6, __VA_ARGS__)
PATH(account, match_type<account>)
PATH(guest, match_type<guest>)
PATH(waiting, match_type<nbdl::unresolved>)
PATH(id, get_t<k<id_s>>, match_type<account>)
PATH(person, match_type<person, k<who_s>>, match_type<account>)
PATH(nobody, match_type<nbdl::nothing, k<who_s>>, match_type<account>)
PATH(last, get_t<k<name_s>, hana::type<last>>, match_type<person, k<who_s>>, match_type<account>)
PATH(two, get_t<hana::type<first>>, get_t<k<name_s>>, match_type<person, k<who_s>>, match_type<account>)
PATH(other, match_type<other, k<pick_s>>, match_type<person, k<who_s>>, match_type<account>)
PATH(plast, match_type<last, k<pick_s>>, match_type<person, k<who_s>>, match_type<account>)
PATH(any, get_t<k<pick_s>>, match_type<person, k<who_s>>, match_type<account>)
PATH(far, match_type<first, k<who_s>, k<name_s>, hana::type<first>>, match_type<account>)
PATH(all)
// the type itself, not one derived from it nor one it converts to
namespace wit
{
  struct vip : guest { };
  struct paper { u64 h; operator guest() const { return {h}; } };
  using visitor = nbdl::variant<guest, vip, paper>;
  struct where { int how; template <typename T> void operator()(T const& x) const
    { if constexpr (std::is_same_v<T, guest>) evt_r_told(how, 1, x.id); else if constexpr (std::is_same_v<T, vip>) evt_r_told(how, 2, x.id); else if constexpr (std::is_same_v<T, paper>) evt_r_told(how, 3, x.h); else evt_r_told(how, 8, 0); } };
  template <typename T, typename V> void visit(V v)
  { visitor const s{v}; nbdl::run_sync(nbdl::pipe([&]() -> visitor const& { return s; }, nbdl::path_promise(path_t<match_type<T>>{}), nbdl::tap([](auto const& x) { where{1}(x); }), nbdl::catch_([](auto const& x) { where{2}(x); }))); }
}
#define EXACT(n, T, V, ...) WIT void wit_exact_##n(u64 id, u64, u64, u64) { visit<T>(V __VA_ARGS__); }
EXACT(11, guest, guest, {id}) EXACT(12, guest, vip, {{id}}) EXACT(13, guest, paper, {id})
EXACT(21, vip, guest, {id}) EXACT(22, vip, vip, {{id}}) EXACT(23, vip, paper, {id})
EXACT(31, paper, guest, {id}) EXACT(32, paper, vip, {{id}}) EXACT(33, paper, paper, {id})
// the thing itself is what a step goes on with, not a copy of it
namespace wit
{
  struct pen { u64 h; pen(u64 x) : h(x) { } pen(pen const& o) : h(o.h) { } };
  struct desk { u64 id; pen left; pen right; };
  struct room { u64 id; desk here; };
  void evt_r_at(void const*) noexcept;
  constexpr auto left_s = "left"_s;
  constexpr auto right_s = "right"_s;
  constexpr auto here_s = "here"_s;
}
namespace nbdl
{
  NBDL_ENTITY(wit::desk, id, left, right);
  NBDL_ENTITY(wit::room, id, here);
}
#define ITSELF(name, ...) WIT void wit_itself_##name(room const* r) \
{ nbdl::run_sync(nbdl::pipe([&]() -> room const& { return *r; }, nbdl::path_promise(path_t<__VA_ARGS__>{}), nbdl::tap([](auto const& x) { evt_r_at(&x); }), nbdl::catch_([](auto const& x) { evt_r_at(nullptr); }))); }
ITSELF(get, get_t<k<here_s>, k<right_s>>)
ITSELF(match, match_type<pen, k<here_s>, k<right_s>>)
ITSELF(two, get_t<k<right_s>>, get_t<k<here_s>>)
ITSELF(both, get_t<k<right_s>>, match_type<desk, k<here_s>>)
ITSELF(last, match_type<pen, k<right_s>>, match_type<desk, k<here_s>>)
ITSELF(none)

WIT void wit_root(u64 id, u64, u64, u64) { account const a{id, {}}; run(path_t<get_t<k<id_s>>>{}, a); }

// a range: the stores of the elements of a container
namespace wit
{
  struct item_key { };
  struct other_key { };
  struct base_tag { };
  // what is taken away leaves a trace
  template <int tag> struct leaves { u64 h; leaves(u64 x) : h(x) { } leaves(leaves const&) = default; leaves(leaves&& o) : h(o.h) { o.h = gone; } leaves& operator=(leaves const&) = default; };
  struct base : leaves<1> { using hana_tag = base_tag; using leaves<1>::leaves; };
  struct num_key : leaves<2> { using leaves<2>::leaves; };
  struct cell_tag { };
  struct cell { using hana_tag = cell_tag; u64 h; };
  struct act : leaves<3> { using leaves<3>::leaves; };
  using box = nbdl::variant<first, last>;
  void evt_r_cell_match(u64 cell, int is_const) noexcept;
  void evt_r_cell_action(u64 cell, u64 action) noexcept;
  void evt_r_base_match(u64 base, int key) noexcept;
  void evt_r_base_action(u64 base, int kind, u64 action) noexcept;
  void evt_r_seen(u64) noexcept;
  void evt_r_result(u64) noexcept;
}
namespace nbdl
{
  template <> struct match_impl<wit::base_tag>
  { template <typename S, typename K, typename Fn> static constexpr void apply(S&& s, K&& k, Fn&& fn)
    { if constexpr (std::is_same_v<std::decay_t<K>, wit::num_key>) { wit::num_key mine(std::forward<K>(k)); wit::evt_r_seen(mine.h); }
      wit::evt_r_base_match(s.h, std::is_same_v<std::decay_t<K>, wit::other_key> ? 1 : std::is_same_v<std::decay_t<K>, wit::item_key> ? 0 : 2); std::forward<Fn>(fn)(wit::first{s.h}); } };
  template <> struct match_impl<wit::cell_tag>
  { template <typename S, typename Fn> static constexpr void apply(S&& s, Fn&& fn)
    { wit::evt_r_cell_match(s.h, std::is_const_v<std::remove_reference_t<S>> + 2 * !std::is_lvalue_reference_v<S>); std::forward<Fn>(fn)(wit::last{s.h}); } };
  template <> struct apply_action_impl<wit::base_tag>
  { template <typename S, typename A> static bool apply(S& s, A&& a)
    { if constexpr (requires { a.value; }) wit::evt_r_base_action(s.h, 1, a.value.h); else { wit::act mine(std::forward<A>(a)); wit::evt_r_base_action(s.h, 0, mine.h); } s.h = 7; return true; } };
  template <> struct apply_action_impl<wit::cell_tag>
  { template <typename S, typename A> static bool apply(S& s, A&& a) { wit::act mine(std::forward<A>(a)); wit::evt_r_cell_action(s.h, mine.h); s.h = mine.h; return true; } };
}
namespace wit
{
  struct see
  {
    void operator()(first const& x) const { evt_r_told(3, 1, x.h); }
    void operator()(last const& x) const { evt_r_told(3, 2, x.h); }
    void operator()(nbdl::unresolved) const { evt_r_told(3, 8, 0); }
  };
  template <typename K, typename C, typename B> void each(C& c, B b)
  { for (auto& s : nbdl::store_range(K{}, c, b)) nbdl::match(s, K{}, see{}); }
  template <typename K, typename C, typename B> void keep(C& c, B b)
  { auto const r = nbdl::store_range(K{}, c, b); for (auto& s : r) nbdl::match(s, K{}, see{}); }
}
// each element, in order; by its key alone
WIT void wit_each_0(u64, u64, u64, u64 b) { std::array<cell, 0> c{}; each<item_key>(c, base{b}); }
WIT void wit_each_1(u64 x, u64, u64, u64 b) { std::array<cell, 1> c{cell{x}}; each<item_key>(c, base{b}); }
WIT void wit_each_3(u64 x, u64 y, u64 z, u64 b) { std::array<cell, 3> c{cell{x}, cell{y}, cell{z}}; each<item_key>(c, base{b}); }
WIT void wit_keep_3(u64 x, u64 y, u64 z, u64 b) { std::array<cell, 3> c{cell{x}, cell{y}, cell{z}}; keep<item_key>(c, base{b}); }
WIT void wit_const_3(u64 x, u64 y, u64 z, u64 b) { std::array<cell, 3> const c{cell{x}, cell{y}, cell{z}}; keep<item_key>(c, base{b}); }
// elements that are variants are seen through
WIT void wit_boxes(u64 x, u64 y, u64, u64 b) { std::array<box, 3> c{box{last{x}}, box{}, box{first{y}}}; each<item_key>(c, base{b}); }
// any other key is read from the base store
WIT void wit_other(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; for (auto& s : nbdl::store_range(item_key{}, c, base{b})) nbdl::match(s, other_key{}, see{}); }
WIT void wit_other_ref(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0))) { nbdl::match(s, other_key{}, see{}); nbdl::match(std::as_const(s), other_key{}, see{}); nbdl::match(std::as_const(s), item_key{}, see{}); } }
// also one that is derived from the key of the elements, or converts to it
namespace wit { struct sub_key : item_key { }; struct like_key { operator item_key() const { return {}; } }; struct more_key : other_key { operator item_key() const { return {}; } }; }
WIT void wit_derived(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 1> c{cell{x}}; for (auto& s : nbdl::store_range(item_key{}, c, base{b})) { nbdl::match(s, sub_key{}, see{}); nbdl::match(s, like_key{}, see{}); } }
WIT void wit_cv_key(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 1> c{cell{x}}; item_key const k{}; item_key j{}; for (auto& s : nbdl::store_range(item_key{}, c, base{b})) { nbdl::match(s, k, see{}); nbdl::match(s, j, see{}); } }
// actions: for the element, for the base store
WIT void wit_do_item(u64 x, u64 y, u64 a, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; int n = 0;
  for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0))) if (n++ == 1) evt_r_same(1, nbdl::apply_action(s, nbdl::store_iterator_action<act>{act{a}}));
  evt_r_seen(c[0].h); evt_r_seen(c[1].h); evt_r_seen(s0.h); }
WIT void wit_do_base(u64 x, u64 y, u64 a, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; int n = 0;
  for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0))) if (n++ == 1) evt_r_same(1, nbdl::apply_action(s, act{a}));
  evt_r_seen(c[0].h); evt_r_seen(c[1].h); evt_r_seen(s0.h); }
WIT void wit_do_lvalue(u64 x, u64 y, u64 a, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; int n = 0; nbdl::store_iterator_action<act> const w{act{a}};
  for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0))) if (n++ == 0) evt_r_same(1, nbdl::apply_action(s, w));
  evt_r_seen(c[0].h); evt_r_seen(c[1].h); evt_r_seen(s0.h); }
WIT void wit_do_box(u64 x, u64 y, u64 a, u64 b)
{ std::array<box, 2> c{box{last{x}}, box{first{y}}}; int n = 0;
  for (auto& s : nbdl::store_range(item_key{}, c, base{b})) if (n++ == 1) nbdl::apply_action(s, nbdl::store_iterator_action<last>{last{a}});
  for (auto& s : c) nbdl::match(s, see{}); }
// actions, keys and stores handed over by name stay as they are
WIT void wit_named(u64 x, u64 y, u64 a, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; act n{a}; nbdl::store_iterator_action<act> w{act{a}}; num_key k{b};
  for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0))) { nbdl::match(s, k, see{}); nbdl::apply_action(s, n); nbdl::apply_action(s, w); } }
WIT void wit_again(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 1> c{cell{x}}; base s0{b}; auto r = nbdl::store_range(item_key{}, c, s0);
  for (int i = 0; i < 2; ++i) for (auto& s : r) { nbdl::match(s, other_key{}, see{}); nbdl::match(s, item_key{}, see{}); }
  evt_r_seen(s0.h); }
// whatever is asked of an element, the iterator stays where it is
WIT void wit_all(u64 x, u64 y, u64 a, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; base s0{b}; int n = 0;
  for (auto& s : nbdl::store_range(item_key{}, c, std::ref(s0)))
  { nbdl::apply_action(s, nbdl::store_iterator_action<act>{act{a}}); nbdl::match(s, item_key{}, see{}); nbdl::match(s, item_key{}, see{}); nbdl::apply_action(s, act{a});
    nbdl::match(s, other_key{}, see{}); nbdl::apply_action(s, nbdl::store_iterator_action<act>{act{b}}); if (++n == 2) break; }
  evt_r_seen(c[0].h); evt_r_seen(c[1].h); evt_r_seen(s0.h); }
// a range in the store of an element of another
WIT void wit_nested(u64 x, u64 y, u64 z, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; std::array<cell, 1> d{cell{z}};
  for (auto& s : nbdl::store_range(item_key{}, c, base{b})) for (auto& r : nbdl::store_range(1_c, d, s))
  { nbdl::match(r, item_key{}, see{}); nbdl::match(r, 1_c, see{}); nbdl::match(r, other_key{}, see{}); } }
// where iterators are
WIT void wit_iter(u64 x, u64 y, u64, u64 b)
{ std::array<cell, 2> c{cell{x}, cell{y}}; auto r = nbdl::store_range(item_key{}, c, base{b}); auto i = r.begin(), j = r.end();
  evt_r_same(1, i == j); evt_r_same(2, i != j); evt_r_same(3, i == r.begin()); ++i; evt_r_same(4, i == r.begin()); evt_r_same(5, i != j); ++i; evt_r_same(6, i == j); evt_r_same(7, i != j); evt_r_same(8, &*i == &i); }

// visitors
namespace wit
{
  template <typename T> constexpr int kind_of = std::is_same_v<T, first> ? 1 : std::is_same_v<T, last> ? 2 : std::is_same_v<T, other> ? 3 : 8;
  struct way { int n; template <typename T> void operator()(T&& x) const { if constexpr (requires { x.h; }) evt_r_told(n * 10 + (std::is_lvalue_reference_v<T> ? std::is_const_v<std::remove_reference_t<T>> ? 2 : 1 : 0), kind_of<std::decay_t<T>>, x.h); else evt_r_told(n * 10, 8, 0); } };
  template <int n> choice choice_of(u64 h)
  { if constexpr (n == 0) return {}; else if constexpr (n == 1) return first{h}; else if constexpr (n == 2) return last{h}; else return other{h}; }
  inline auto table() { return nbdl::mapped_overload(hana::make_map(hana::make_pair(hana::type_c<first>, way{1}), hana::make_pair(hana::type_c<other>, way{3})), way{9}); }
}
#define VISIT(n) \
WIT void wit_when_##n(u64 h, u64, u64, u64) { choice c = choice_of<n>(h); nbdl::match_when<first>(c, way{1}); } \
WIT void wit_cwhen_##n(u64 h, u64, u64, u64) { choice const c = choice_of<n>(h); nbdl::match_when<last>(c, way{2}); } \
WIT void wit_kwhen_##n(u64 h, u64, u64, u64) { person c{name_t{}, choice_of<n>(h)}; nbdl::match_when<other>(c, k<pick_s>{}, way{4}); nbdl::match_when<choice>(c, k<pick_s>{}, [](choice& c) { nbdl::match(c, way{3}); }); } \
WIT void wit_mapped_##n(u64 h, u64, u64, u64) { choice c = choice_of<n>(h); auto const t = table(); nbdl::match(c, t); }
VISIT(0) VISIT(1) VISIT(2) VISIT(3)
WIT void wit_exact(u64 h, u64, u64, u64) { struct more : first { }; more m{{h}}; nbdl::match_when<first>(way{1})(m); evt_r_seen(0); nbdl::match_when<more>([](auto&&) { evt_r_seen(1); })(m); }
