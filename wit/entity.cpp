// Entities, keys and unique ids: reading members, binding, equality and hashing.
#include "wit.hpp"
#include <random>
namespace wit { unsigned evt_device() noexcept; unsigned evt_draw(u64 gen) noexcept; }
namespace std
{
  // a generator whose draws are events
  struct wit_device { unsigned operator()() { return wit::evt_device(); } };
  struct wit_engine
  { wit::u64 h; explicit wit_engine(unsigned x) : h(x) { } unsigned operator()() { return wit::evt_draw(h); } };
}
#include <nbdl/detail/hash_combine.hpp>
// mixing bytes (of unique ids) into a digest is opaque
extern "C" __attribute__((const, nothrow)) wit::u64 combine(wit::u64, unsigned char);
namespace nbdl::detail
{
  template <> inline void hash_combine<unsigned char>(std::size_t& seed, unsigned char const& v) { seed = combine(seed, v); }
}
#define mt19937 wit_engine
#define random_device wit_device
#include <nbdl/uid.hpp>
#undef mt19937
#undef random_device
#include <nbdl/binder/hash.hpp>
#include <nbdl/bind_map.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/get.hpp>
#include <nbdl/key.hpp>
#include <nbdl/message.hpp>
#include <nbdl/variant.hpp>
#include <string>

namespace wit
{
  extern "C" __attribute__((const, nothrow)) u64 hash_a(u64);
  extern "C" __attribute__((const, nothrow)) u64 hash_b(u64);
  template <int slot> void evt_r_val(u64) noexcept;      // a part of the value received
  template <int slot> void evt_r_addr(void const*) noexcept;
  template <int slot, bool is_const> void evt_r_item(int kind, u64) noexcept;
  void evt_r_count(int) noexcept;
  void evt_r_name(char const*, u64 len) noexcept;
  template <int n> void evt_r_is(bool) noexcept;
  void evt_equal(bool) noexcept;
  void evt_hash(u64) noexcept;

  using A = tval<1>; using B = tval<2>;
  struct empty { };
  constexpr bool operator==(empty, empty) { return true; }

  struct inner { A p; B q; };
  struct flat { A a; u64 b; B c; char d; };
  struct one { A only; };
  struct two { A x; A y; };            // members of one type
  struct deep { inner x; A y; empty e; inner z; };
  struct derived : flat { B extra; };
}
namespace std
{
  template <> struct hash<wit::A> { size_t operator()(wit::A const& x) const { return wit::hash_a(x.h); } };
  template <> struct hash<wit::B> { size_t operator()(wit::B const& x) const { return wit::hash_b(x.h); } };
}
namespace nbdl
{
  NBDL_ENTITY(wit::inner, p, q);
  NBDL_ENTITY(wit::flat, a, b, c, d);
  NBDL_ENTITY(wit::one, only);
  NBDL_ENTITY(wit::two, x, y);
  NBDL_ENTITY(wit::deep, x, y, e, z);
}
namespace wit
{
  template <typename T> struct bag   // a container
  {
    T xs[4]; u64 n;
    using value_type = T; using iterator = T*; using const_iterator = T const*;
    T* begin() { return xs; } T* end() { return xs + n; } T const* begin() const { return xs; } T const* end() const { return xs + n; }
    u64 size() const { return n; }
  };
  using var = nbdl::variant<A, B, nbdl::nothing>;

  template <typename T> struct plain_ { using type = T; };
  template <typename T> struct plain_<std::reference_wrapper<T>> { using type = T; };
  template <typename T> constexpr int kind = std::is_same_v<T, A> ? 1 : std::is_same_v<T, B> ? 2 : std::is_same_v<T, u64> ? 3 : std::is_same_v<T, char> ? 4 :
    std::is_same_v<T, inner> ? 5 : std::is_same_v<T, empty> ? 6 : -1;
  template <typename T> u64 val_of(T const& t)
  { if constexpr (requires { t.h; }) return t.h; else if constexpr (std::is_same_v<T, inner>) return t.p.h * 3 + t.q.h; else if constexpr (std::is_empty_v<T>) return 0; else return u64(t); }
  template <int slot, typename T> void item(T& x)
  { evt_r_item<slot, std::is_const_v<T>>(kind<std::remove_const_t<T>>, val_of(x)); evt_r_addr<slot>(&x); }
  struct take
  {
    template <typename... T> void operator()(T&&... xs) const
    { evt_r_count(sizeof...(T)); go(std::make_integer_sequence<int, sizeof...(T)>{}, xs...); }
    template <int... i, typename... T> static void go(std::integer_sequence<int, i...>, T&... xs) { (item<i>(xs), ...); }
  };
  struct take_map
  {
    template <typename... T> void operator()(T&&... xs) const
    { evt_r_count(sizeof...(T)); go(std::make_integer_sequence<int, sizeof...(T)>{}, xs...); }
    template <int... i, typename... T> static void go(std::integer_sequence<int, i...>, T&... xs) { (one_<i>(xs), ...); }
    template <int i, typename P> static void one_(P& p)
    { char const* n = hana::to<char const*>(hana::first(p)); evt_r_name(n, decltype(hana::length(hana::first(p)))::value); item<i>(hana::second(p).get()); }
  };
  // bound without filtering, then written through
  struct scribble
  {
    u64 v;
    template <typename... T> void operator()(T&&... xs) const { (w(xs), ...); }
    void w(A& x) const { x.h = v; } void w(B& x) const { x.h = v + 1; } void w(u64& x) const { x = v + 2; } void w(char& x) const { x = 'x'; }
  };
}
using namespace wit;

// Binding: every member, in order, with its own storage.
WIT void wit_seq_flat(flat const& f) { nbdl::bind_sequence(f, take{}); evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d);
  evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }
WIT void wit_seqm_flat(flat& f) { nbdl::bind_sequence(f, take{}); evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d);
  evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }
WIT void wit_map_flat(flat const& f) { nbdl::bind_map(f, take_map{}); evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d);
  evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }
WIT void wit_mapm_flat(flat& f) { nbdl::bind_map(f, take_map{}); evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d);
  evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }
WIT void wit_seq_two(two const& f) { nbdl::bind_sequence(f, take{}); evt_r_addr<90>(&f.x); evt_r_addr<91>(&f.y); evt_r_val<0>(f.x.h); evt_r_val<1>(f.y.h); }
WIT void wit_map_two(two const& f) { nbdl::bind_map(f, take_map{}); evt_r_addr<90>(&f.x); evt_r_addr<91>(&f.y); evt_r_val<0>(f.x.h); evt_r_val<1>(f.y.h); }
WIT void wit_seq_one(one const& f) { nbdl::bind_sequence(f, take{}); evt_r_addr<90>(&f.only); evt_r_val<0>(f.only.h); }
WIT void wit_map_one(one const& f) { nbdl::bind_map(f, take_map{}); evt_r_addr<90>(&f.only); evt_r_val<0>(f.only.h); }
// members that are empty types are left out of sequences
WIT void wit_seq_deep(deep const& f) { nbdl::bind_sequence(f, take{}); evt_r_addr<90>(&f.x); evt_r_addr<91>(&f.y); evt_r_addr<92>(&f.z);
  evt_r_val<0>(val_of(f.x)); evt_r_val<1>(f.y.h); evt_r_val<2>(val_of(f.z)); }
WIT void wit_write_flat(u64 v) { flat f{A(1), 2, B(3), 'c'}; nbdl::bind_sequence(f, scribble{v}); evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }
// sequences
WIT void wit_seq_tuple(u64 x, u64 y) { auto t = hana::make_tuple(A(x), empty{}, B(y), A(5)); nbdl::bind_sequence(t, take{}); evt_r_val<0>(x); evt_r_val<1>(y); evt_r_val<2>(5); }
WIT void wit_seq_pair(u64 x, u64 y) { auto t = hana::make_pair(A(x), B(y)); nbdl::bind_sequence(t, take{}); evt_r_val<0>(x); evt_r_val<1>(y); }
WIT void wit_seq_just(u64 x) { auto t = hana::just(A(x)); nbdl::bind_sequence(t, take{}); evt_r_val<0>(x); }
WIT void wit_seq_nothing() { nbdl::bind_sequence(hana::nothing, take{}); }
WIT void wit_seq_none() { nbdl::bind_sequence(hana::make_tuple(empty{}, empty{}), take{}); }

WIT void wit_write_tuple(u64 v) { auto t = hana::make_tuple(A(1), B(2), u64(3), 'c'); nbdl::bind_sequence(t, scribble{v});
  evt_r_val<0>(t[hana::size_c<0>].h); evt_r_val<1>(t[hana::size_c<1>].h); evt_r_val<2>(t[hana::size_c<2>]); evt_r_val<3>(t[hana::size_c<3>]); }
// maps
struct scribble_map { u64 v; template <typename... P> void operator()(P... p) const { (scribble{v}.w(hana::second(p).get()), ...); } };
WIT void wit_map_map(u64 x, u64 y)
{ auto m = hana::make_map(hana::make_pair(BOOST_HANA_STRING("a"), A(x)), hana::make_pair(BOOST_HANA_STRING("b"), B(y))); nbdl::bind_map(m, take_map{});
  evt_r_addr<90>(&m[BOOST_HANA_STRING("a")]); evt_r_addr<91>(&m[BOOST_HANA_STRING("b")]); evt_r_val<0>(x); evt_r_val<1>(y); }
WIT void wit_write_map(u64 v)
{ auto m = hana::make_map(hana::make_pair(BOOST_HANA_STRING("a"), A(1)), hana::make_pair(BOOST_HANA_STRING("b"), B(2))); nbdl::bind_map(m, scribble_map{v});
  evt_r_val<0>(m[BOOST_HANA_STRING("a")].h); evt_r_val<1>(m[BOOST_HANA_STRING("b")].h); }
WIT void wit_write_entity_map(u64 v) { flat f{A(1), 2, B(3), 'c'}; nbdl::bind_map(f, scribble_map{v}); evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d); }

// Reading members.
WIT void wit_get_flat(flat const& f)
{
  auto const& a = nbdl::get_member<NBDL_MEMBER(&flat::a)>(f); auto const& b = nbdl::get_member<NBDL_MEMBER(&flat::b)>(f);
  auto const& c = nbdl::get_member<NBDL_MEMBER(&flat::c)>(f); auto const& d = nbdl::get_member<NBDL_MEMBER(&flat::d)>(f);
  item<0>(a); item<1>(b); item<2>(c); item<3>(d); evt_r_count(4);
  evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d); evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d);
}
WIT void wit_name_flat(flat& f)
{
  auto& a = nbdl::get_member<decltype(BOOST_HANA_STRING("a"))>(f); auto& b = nbdl::get_member<decltype(BOOST_HANA_STRING("b"))>(f);
  auto& c = nbdl::get_member<decltype(BOOST_HANA_STRING("c"))>(f); auto& d = nbdl::get_member<decltype(BOOST_HANA_STRING("d"))>(f);
  item<0>(a); item<1>(b); item<2>(c); item<3>(d); evt_r_count(4);
  evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d); evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d);
}
WIT void wit_state_flat(flat& f)
{
  auto& a = nbdl::get(f, BOOST_HANA_STRING("a")); auto& b = nbdl::get(f, BOOST_HANA_STRING("b"));
  auto& c = nbdl::get(f, NBDL_MEMBER(&flat::c){}); auto& d = nbdl::get(f, NBDL_MEMBER(&flat::d){});
  item<0>(a); item<1>(b); item<2>(c); item<3>(d); evt_r_count(4);
  evt_r_addr<90>(&f.a); evt_r_addr<91>(&f.b); evt_r_addr<92>(&f.c); evt_r_addr<93>(&f.d); evt_r_val<0>(f.a.h); evt_r_val<1>(f.b); evt_r_val<2>(f.c.h); evt_r_val<3>(f.d);
}
WIT void wit_state_self(flat& f) { auto& g = nbdl::get(f); evt_r_addr<0>(&g); evt_r_addr<90>(&f); }

// Equality.
WIT void wit_equal_flat(u64 a, u64 b, u64 c, char d, u64 a2, u64 b2, u64 c2, char d2)
{ flat x{A(a), b, B(c), d}, y{A(a2), b2, B(c2), d2}; evt_equal(hana::equal(x, y)); }
WIT void wit_nequal_flat(u64 a, u64 b, u64 c, char d, u64 a2, u64 b2, u64 c2, char d2)
{ flat x{A(a), b, B(c), d}, y{A(a2), b2, B(c2), d2}; evt_equal(!hana::not_equal(x, y)); }
WIT void wit_equal_two(u64 a, u64 b, u64 a2, u64 b2) { two x{A(a), A(b)}, y{A(a2), A(b2)}; evt_equal(hana::equal(x, y)); }
WIT void wit_equal_one(u64 a, u64 a2) { one x{A(a)}, y{A(a2)}; evt_equal(hana::equal(x, y)); }
WIT void wit_equal_deep(u64 a, u64 b, u64 c, u64 d, u64 e, u64 a2, u64 b2, u64 c2, u64 d2, u64 e2)
{ deep x{inner{A(a), B(b)}, A(c), empty{}, inner{A(d), B(e)}}, y{inner{A(a2), B(b2)}, A(c2), empty{}, inner{A(d2), B(e2)}}; evt_equal(hana::equal(x, y)); }
WIT void wit_equal_cpath(u64 a, u64 b, u64 a2, u64 b2)
{ auto x = nbdl::message::make_create_path<nbdl::key<one, u64>>(hana::make_tuple(A(a), B(b))); auto y = nbdl::message::make_create_path<nbdl::key<one, u64>>(hana::make_tuple(A(a2), B(b2))); evt_equal(hana::equal(x, y)); }
WIT void wit_equal_key(u64 a, u64 a2) { nbdl::key<one, u64> x(a), y(a2); evt_equal(x == y); }
WIT void wit_key_value(u64 a) { nbdl::key<one, u64> k(a); evt_r_val<0>(k.value); nbdl::key<one, A> l{A(a)}; evt_r_val<1>(l.value.h);
  auto p = (l = A(a)); evt_r_val<2>(hana::second(p).h); evt_r_val<3>(l.value.h); }
WIT void wit_equal_uid(nbdl::uid const& x, nbdl::uid const& y)
{ evt_r_is<0>(x == y); }
WIT void wit_nequal_uid(nbdl::uid const& x, nbdl::uid const& y) { evt_r_is<0>(!(x != y)); }

// Hashing.
WIT void wit_hash_flat(u64 a, u64 b, u64 c, char d) { flat x{A(a), b, B(c), d}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_two(u64 a, u64 b) { two x{A(a), A(b)}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_one(u64 a) { one x{A(a)}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_deep(u64 a, u64 b, u64 c, u64 d, u64 e) { deep x{inner{A(a), B(b)}, A(c), empty{}, inner{A(d), B(e)}}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_tuple(u64 a, u64 b) { evt_hash(nbdl::binder::hash(hana::make_tuple(A(a), B(b), A(5)))); }
WIT void wit_hash_var0(u64 a) { var v{A(a)}; evt_hash(nbdl::binder::hash(v)); }
WIT void wit_hash_var1(u64 a) { var v{B(a)}; evt_hash(nbdl::binder::hash(v)); }
WIT void wit_hash_var2() { var v{nbdl::nothing{}}; evt_hash(nbdl::binder::hash(v)); }
WIT void wit_hash_bag0() { bag<A> x{{A(1), A(1), A(1), A(1)}, 0}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_bag1(u64 a) { bag<A> x{{A(a), A(1), A(1), A(1)}, 1}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_bag2(u64 a, u64 b) { bag<A> x{{A(a), A(b), A(1), A(1)}, 2}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_bag3(u64 a, u64 b, u64 c) { bag<A> x{{A(a), A(b), A(c), A(1)}, 3}; evt_hash(nbdl::binder::hash(x)); }
WIT void wit_hash_uid(nbdl::uid const& x) { evt_hash(std::hash<nbdl::uid>{}(x)); }

// Unique ids.
WIT void wit_draw()
{
  auto gen = nbdl::make_uid_generator();
  nbdl::uid x = gen(), y = gen();
  [&]<int... i>(std::integer_sequence<int, i...>) { (evt_r_val<i>(x[i]), ...); (evt_r_val<i + 16>(y[i]), ...); }(std::make_integer_sequence<int, 16>{});
}
WIT void wit_draw2()
{
  auto g = nbdl::make_uid_generator(), h = nbdl::make_uid_generator();
  nbdl::uid x = g(), y = h();
  [&]<int... i>(std::integer_sequence<int, i...>) { (evt_r_val<i>(x[i]), ...); (evt_r_val<i + 16>(y[i]), ...); }(std::make_integer_sequence<int, 16>{});
}
WIT void wit_swap(nbdl::uid const& x, nbdl::uid const& y)
{
  nbdl::uid a = x, b = y; swap(a, b);
  [&]<int... i>(std::integer_sequence<int, i...>) { (evt_r_val<i>(a[i]), ...); (evt_r_val<i + 16>(b[i]), ...); }(std::make_integer_sequence<int, 16>{});
}
WIT void wit_index(nbdl::uid const& x, nbdl::uid& y)
{
  [&]<int... i>(std::integer_sequence<int, i...>) { (evt_r_is<i>(&x[i] == x.data() + i && x.begin() + i == x.data() + i && &y[i] == y.data() + i && y.begin() + i == y.data() + i), ...); }(std::make_integer_sequence<int, 16>{});
  evt_r_is<16>(x.size() == 16 && x.end() == x.data() + 16 && y.end() == y.data() + 16);
}
