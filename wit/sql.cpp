// SQL: the statements that are generated and the values that are bound to them.
#include "wit.hpp"
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/sql_db/insert.hpp>
#include <nbdl/sql_db/select.hpp>
#include <nbdl/sql_db/statement/insert.hpp>
#include <nbdl/sql_db/statement/select.hpp>
#include <nbdl/sql_db/statement/update.hpp>
#include <nbdl/sql_db/update.hpp>
#include <array>
#include <functional>
#include <string_view>

namespace wit
{
  void evt_r_txt(u64 chars, u64 n) noexcept; // up to eight characters
  void evt_r_end() noexcept;                 // of a text
  void evt_r_val(u64) noexcept;              // a value
  void evt_r_begin() noexcept;               // a statement is handed over
  u64 evt_row() noexcept;                    // and answered with an id
  void evt_r_id(u64) noexcept;
  void evt_done() noexcept;

  using V = tval<1>; using W = tval<2>;
  using K = tval<3>;                         // keys

  template <typename S, std::size_t from, std::size_t n>
  constexpr u64 pack = [] {
    u64 x = 0;
    for (std::size_t j = 0; j < 8 && from + j < n; ++j) x |= u64((unsigned char)S::c_str()[from + j]) << 8 * j;
    return x;
  }();
  template <typename S>
  void text(S s)
  {
    constexpr std::size_t n = decltype(hana::length(s))::value;
    [&]<std::size_t ...i>(std::index_sequence<i...>) { (evt_r_txt(pack<S, 8 * i, n>, n - 8 * i < 8 ? n - 8 * i : 8), ...); }(std::make_index_sequence<(n + 7) / 8>{});
    evt_r_end();
  }

  template <int tag> void value(tval<tag> const& v) { evt_r_val(v.h); }
  inline void value(u64 v) { evt_r_val(v); }
  template <typename T, typename X> void value(nbdl::key_impl<T, X> const& k) { value(k.value); }
  template <typename P> void column(P const& p) { text(hana::first(p)); value(hana::second(p)); }

  struct e_flat { V a; u64 b; };
  struct e_one { W z; };
  struct e_mid { V v; e_flat f; W w; };
  struct e_top { e_mid m1; V t; e_mid m2; e_flat g; };
  struct e_deep { e_top top; };              // no values of its own
  struct e_own { V x; std::array<e_flat, 3> rows; W y; };
  struct e_all { std::array<e_one, 1> ones; e_flat f; V x; std::array<e_mid, 2> mids; };
  struct e_nest { std::array<e_own, 2> owns; V n; };

  // a container of any number of rows
  struct rows
  {
    using value_type = e_one;
    e_one* b; e_one* e;
    e_one* begin() const { return b; }
    e_one* end() const { return e; }
    std::size_t size() const { return std::size_t(e - b); }
  };
  struct e_many { V x; rows r; };
}
namespace nbdl
{
  NBDL_ENTITY(wit::e_flat, a, b);
  NBDL_ENTITY(wit::e_one, z);
  NBDL_ENTITY(wit::e_mid, v, f, w);
  NBDL_ENTITY(wit::e_top, m1, t, m2, g);
  NBDL_ENTITY(wit::e_deep, top);
  NBDL_ENTITY(wit::e_own, x, rows, y);
  NBDL_ENTITY(wit::e_all, ones, f, x, mids);
  NBDL_ENTITY(wit::e_nest, owns, n);
  NBDL_ENTITY(wit::e_many, x, r);
}
#define PK(T) template <> struct nbdl::sql_db::primary_key_impl<wit::T> { using type = nbdl::key<wit::T, wit::K>; };
PK(e_own) PK(e_all) PK(e_flat) PK(e_nest) PK(e_many) PK(e_top) PK(e_mid) PK(e_one)
#undef PK

namespace wit
{
  using namespace hana::literals;
  using nbdl::sql_db::primary_key;
  using nbdl::sql_db::table_key_name;

  // ---- insert
  struct inserts
  {
    template <typename Name, typename Columns>
    K operator()(Name name, Columns&& columns_) const
    {
      std::decay_t<Columns> columns(std::forward<Columns>(columns_));
      evt_r_begin();
      text(name);
      hana::for_each(columns, [](auto const& c) { column(c); });
      return K(evt_row());
    }
  };
  inline e_flat flat(u64* x) { return {V(x[0]), x[1]}; }
  inline e_one one(u64* x) { return {W(x[0])}; }
  inline e_mid mid(u64* x) { return {V(x[0]), flat(x + 1), W(x[3])}; }
  inline e_top top(u64* x) { return {mid(x), V(x[4]), mid(x + 5), flat(x + 9)}; }
  inline e_deep deep(u64* x) { return {top(x)}; }
  inline e_own own(u64* x) { return {V(x[0]), {flat(x + 1), flat(x + 3), flat(x + 5)}, W(x[7])}; }
  inline e_all all(u64* x) { return {{one(x)}, flat(x + 1), V(x[3]), {mid(x + 4), mid(x + 8)}}; }
  inline e_nest nest(u64* x) { return {{own(x), own(x + 8)}, V(x[16])}; }

#define WITH(NAME) u64 x[] = {a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6}; auto e = NAME(x);
#define ARGS u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 a5, u64 a6, u64 a7, u64 a8, u64 a9, u64 b0, u64 b1, u64 b2, u64 b3, u64 b4, u64 b5, u64 b6, u64 k1, u64 k2
#define INSERT(NAME) \
  WIT void wit_insl_##NAME(ARGS) { WITH(NAME) auto const& c = e; auto k = nbdl::sql_db::insert(inserts{}, c); static_assert(std::is_same_v<decltype(k), primary_key<e_##NAME>>); evt_r_id(k.value.h); } \
  WIT void wit_insr_##NAME(ARGS) { WITH(NAME) auto k = nbdl::sql_db::insert(inserts{}, std::move(e)); evt_r_id(k.value.h); } \
  WIT void wit_insm_##NAME(ARGS) { WITH(NAME) auto k = nbdl::sql_db::insert(inserts{}, e); evt_r_id(k.value.h); nbdl::sql_db::insert(inserts{}, e); evt_done(); } \
  WIT void wit_insk_##NAME(ARGS) { WITH(NAME) auto k = nbdl::sql_db::insert(inserts{}, e, hana::make_tuple(hana::make_pair("owner_id"_s, K(k1)), hana::make_pair("other_id"_s, nbdl::key<e_one, K>(K(k2))))); evt_r_id(k.value.h); } \
  WIT void wit_insq_##NAME(ARGS) { WITH(NAME) auto const q = hana::make_tuple(hana::make_pair("owner_id"_s, K(k1)), hana::make_pair("other_id"_s, nbdl::key<e_one, K>(K(k2)))); \
    auto k = nbdl::sql_db::insert(inserts{}, e, q); evt_r_id(k.value.h); evt_done(); hana::for_each(q, [](auto const& c) { column(c); }); } \
  WIT void wit_insn_##NAME(ARGS) { WITH(NAME) auto q = hana::make_tuple(hana::make_pair("owner_id"_s, K(k1)), hana::make_pair("other_id"_s, nbdl::key<e_one, K>(K(k2)))); \
    auto k = nbdl::sql_db::insert(inserts{}, e, q); evt_r_id(k.value.h); evt_done(); hana::for_each(q, [](auto const& c) { column(c); }); }
  INSERT(flat) INSERT(mid) INSERT(top) INSERT(own) INSERT(all) INSERT(nest)
  WIT void wit_insl_many(V const& v, e_one* b, e_one* e) { e_many m{V(v.h), rows{b, e}}; auto k = nbdl::sql_db::insert(inserts{}, m); evt_r_id(k.value.h); }
  // rows by themselves
  WIT void wit_insc_rows(ARGS) { u64 x[] = {a0, a1, a2, a3, a4, a5}; std::array<e_flat, 3> e{flat(x), flat(x + 2), flat(x + 4)};
    nbdl::sql_db::insert(inserts{}, e, hana::make_tuple(hana::make_pair("owner_id"_s, K(k1)))); evt_done(); }

  // ---- update
  struct updates
  {
    template <typename Name, typename Columns, typename Keys>
    void operator()(Name name, Columns&& columns_, Keys&& keys_) const
    {
      std::decay_t<Columns> columns(std::forward<Columns>(columns_)); std::decay_t<Keys> keys(std::forward<Keys>(keys_));
      evt_r_begin();
      text(name);
      hana::for_each(columns, [](auto const& c) { column(c); });
      evt_done();
      hana::for_each(keys, [](auto const& c) { column(c); });
    }
  };
#define UPDATE(NAME) \
  WIT void wit_updl_##NAME(ARGS) { WITH(NAME) auto const& c = e; nbdl::sql_db::update(updates{}, c, hana::make_tuple(hana::make_pair("owner_id"_s, K(k2)), hana::make_pair(table_key_name<e_##NAME>{}, primary_key<e_##NAME>(K(k1))))); } \
  WIT void wit_updr_##NAME(ARGS) { WITH(NAME) auto const q = hana::make_tuple(hana::make_pair(table_key_name<e_##NAME>{}, primary_key<e_##NAME>(K(k1)))); nbdl::sql_db::update(updates{}, std::move(e), q); \
    evt_done(); hana::for_each(q, [](auto const& c) { column(c); }); } \
  WIT void wit_updn_##NAME(ARGS) { WITH(NAME) auto q = hana::make_tuple(hana::make_pair(table_key_name<e_##NAME>{}, primary_key<e_##NAME>(K(k1)))); nbdl::sql_db::update(updates{}, e, q); \
    nbdl::sql_db::update(updates{}, e, q); hana::for_each(q, [](auto const& c) { column(c); }); }
  UPDATE(flat) UPDATE(one)

  // ---- select
  struct selects
  {
    template <typename Name, typename Columns, typename Joins, typename Keys>
    u64 operator()(Name name, Columns columns, Joins joins, Keys&& keys_) const
    {
      auto s = nbdl::sql_db::statement::select(name, columns, joins, std::forward<Keys>(keys_));
      text(name); text(hana::first(s));
      hana::for_each(hana::second(s), [](auto const& v) { value(v); });
      return evt_row();
    }
  };
#define SELECT(NAME) \
  WIT void wit_sel_##NAME(u64 k1, u64 k2) { evt_r_id(nbdl::sql_db::select<e_##NAME>(selects{}, hana::make_map(hana::make_pair(nbdl::sql_db::select_primary_key_name<e_##NAME>{}, K(k1))))); }
  SELECT(flat) SELECT(one) SELECT(mid) SELECT(top) SELECT(deep)
  WIT void wit_sel2_top(u64 k1, u64 k2)
  {
    auto const keys = hana::make_map(hana::make_pair(nbdl::sql_db::select_nested_key_name<e_top, NBDL_MEMBER(&e_top::m2), NBDL_MEMBER(&e_mid::f)>{}, K(k1))
                                   , hana::make_pair(nbdl::sql_db::select_primary_key_name<e_top>{}, K(k2)));
    evt_r_id(nbdl::sql_db::select<e_top>(selects{}, keys)); evt_done(); value(hana::at_c<0>(hana::values(keys))); value(hana::at_c<1>(hana::values(keys)));
  }
  WIT void wit_sel2n_top(u64 k1, u64 k2)
  {
    auto keys = hana::make_map(hana::make_pair(nbdl::sql_db::select_nested_key_name<e_top, NBDL_MEMBER(&e_top::m2), NBDL_MEMBER(&e_mid::f)>{}, K(k1))
                                   , hana::make_pair(nbdl::sql_db::select_primary_key_name<e_top>{}, K(k2)));
    evt_r_id(nbdl::sql_db::select<e_top>(selects{}, keys)); evt_done(); value(hana::at_c<0>(hana::values(keys))); value(hana::at_c<1>(hana::values(keys)));
  }
  WIT void wit_sel2_mid(u64 k1, u64 k2)
  {
    evt_r_id(nbdl::sql_db::select<e_mid>(selects{}, hana::make_map(hana::make_pair(nbdl::sql_db::select_primary_key_name<e_mid>{}, K(k1))
                                   , hana::make_pair(nbdl::sql_db::select_nested_key_name<e_mid, NBDL_MEMBER(&e_mid::f)>{}, K(k2)))));
  }

  // ---- statements
  template <typename P> void statement(P const& p) { text(hana::first(p)); hana::for_each(hana::second(p), [](auto const& v) { value(v); }); evt_done(); }
  template <int n, typename F> void columns(F f, u64* x)
  {
    if constexpr (n == 1) f(hana::make_pair("c1"_s, V(x[0])));
    if constexpr (n == 2) f(hana::make_pair("c1"_s, V(x[0])), hana::make_pair("a2"_s, W(x[1])));
    if constexpr (n == 3) f(hana::make_pair("c1"_s, V(x[0])), hana::make_pair("a2"_s, W(x[1])), hana::make_pair("b3"_s, x[2]));
    if constexpr (n == 5) f(hana::make_pair("c1"_s, V(x[0])), hana::make_pair("a2"_s, W(x[1])), hana::make_pair("b3"_s, x[2]), hana::make_pair("n4"_s, V(x[3])), hana::make_pair("d5"_s, V(x[4])));
  }
#define STATEMENT(N) \
  WIT void wit_st_insert_##N(u64 a0, u64 a1, u64 a2, u64 a3, u64 a4) { u64 x[] = {a0, a1, a2, a3, a4}; \
    columns<N>([](auto&& ...p) { statement(nbdl::sql_db::statement::insert("tab"_s, hana::make_map(std::move(p)...))); }, x); \
    columns<N>([](auto&& ...p) { auto const m = hana::make_map(std::move(p)...); statement(nbdl::sql_db::statement::insert("tab"_s, m)); hana::for_each(hana::values(m), [](auto const& v) { value(v); }); }, x); } \
  WIT void wit_stn_insert_##N(u64 a0, u64 a1, u64 a2, u64 a3, u64 a4) { u64 x[] = {a0, a1, a2, a3, a4}; \
    columns<N>([](auto&& ...p) { auto m = hana::make_map(std::move(p)...); statement(nbdl::sql_db::statement::insert("tab"_s, m)); statement(nbdl::sql_db::statement::insert("tab"_s, m)); hana::for_each(hana::values(m), [](auto const& v) { value(v); }); }, x); }
  STATEMENT(1) STATEMENT(2) STATEMENT(3) STATEMENT(5)
#define UPDATES(N, M) \
  WIT void wit_st_update_##N##M(u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 k1, u64 k2) { u64 x[] = {a0, a1, a2, a3, a4}; \
    columns<N>([&](auto&& ...p) { statement(nbdl::sql_db::statement::update("tab"_s, hana::make_basic_tuple(std::move(p)...), KEYS##M)); }, x); \
    columns<N>([&](auto&& ...p) { auto const m = hana::make_basic_tuple(std::move(p)...); auto const k = KEYS##M; statement(nbdl::sql_db::statement::update("tab"_s, m, k)); hana::for_each(m, [](auto const& v) { column(v); }); hana::for_each(k, [](auto const& v) { column(v); }); }, x); } \
  WIT void wit_stn_update_##N##M(u64 a0, u64 a1, u64 a2, u64 a3, u64 a4, u64 k1, u64 k2) { u64 x[] = {a0, a1, a2, a3, a4}; \
    columns<N>([&](auto&& ...p) { auto m = hana::make_basic_tuple(std::move(p)...); auto k = KEYS##M; statement(nbdl::sql_db::statement::update("tab"_s, m, k)); statement(nbdl::sql_db::statement::update("tab"_s, m, k)); hana::for_each(m, [](auto const& v) { column(v); }); hana::for_each(k, [](auto const& v) { column(v); }); }, x); }
#define KEYS1 hana::make_basic_tuple(hana::make_pair("k1"_s, K(k1)))
#define KEYS2 hana::make_basic_tuple(hana::make_pair("k1"_s, K(k1)), hana::make_pair("i2"_s, K(k2)))
  UPDATES(1, 1) UPDATES(3, 1) UPDATES(2, 2) UPDATES(5, 2)
}
