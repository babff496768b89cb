// Signatures of types: those in one group are written in one form, those of different groups are not.
#include "wit.hpp"
#include <nbdl/api_signature.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <array>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace wit
{
  namespace message = nbdl::message;
  enum class color : unsigned { red }; enum plain : int { zero }; enum class tiny : unsigned char { none };
  struct point { int x; int y; }; struct spot { int x; int y; }; struct place { int x; int z; }; struct cube { int x; int y; int z; }; struct exact { int x; double y; };
  struct tone { color c; }; struct hue { unsigned c; }; struct shade { int c; };
  struct box { point p; nbdl::string s; }; struct bin { spot p; nbdl::string s; }; struct jar { place p; nbdl::string s; }; struct can { point p; std::vector<int> s; };
  struct key { int k; }; struct id { int i; }; struct named { nbdl::string n; };
  struct nothing { }; struct naught { };
  namespace other { struct point { int x; int y; }; }
}
namespace nbdl
{
  NBDL_ENTITY(wit::point, x, y); NBDL_ENTITY(wit::spot, x, y); NBDL_ENTITY(wit::place, x, z); NBDL_ENTITY(wit::cube, x, y, z); NBDL_ENTITY(wit::exact, x, y);
  NBDL_ENTITY(wit::tone, c); NBDL_ENTITY(wit::hue, c); NBDL_ENTITY(wit::shade, c);
  NBDL_ENTITY(wit::box, p, s); NBDL_ENTITY(wit::bin, p, s); NBDL_ENTITY(wit::jar, p, s); NBDL_ENTITY(wit::can, p, s);
  NBDL_ENTITY(wit::key, k); NBDL_ENTITY(wit::id, i); NBDL_ENTITY(wit::named, n);
  NBDL_ENTITY(wit::other::point, x, y);
}
namespace wit
{
  template <int> struct def { };
  struct ptag { };
  namespace defs
  {
    using namespace boost::hana::literals;
    using namespace nbdl_def;
    template <typename Root, typename Key, typename Entity_, typename N, typename Actions_>
    constexpr auto one(N name, Actions_ actions)
    {
      return Context(
        Producers(Producer(Name(name), Type<ptag>, AccessPoints(
          AccessPoint(Name("r"_s), Entity<point>, PathKey<Root>, Actions(), AccessPoint(Name("e"_s), Entity<Entity_>, PathKey<Key>, actions))))),
        Consumers(Consumer(Name("c"_s), Type<ptag>)));
    }
  }
}
namespace nbdl
{
  using namespace boost::hana::literals;
  using nbdl_def::Actions; using nbdl_def::Create; using nbdl_def::Read; using nbdl_def::Update; using nbdl_def::Delete;
#define DEF(I, ...) template <> struct make_def_impl<wit::def<I>> { static constexpr auto apply() { return __VA_ARGS__; } };
  DEF(0, wit::defs::one<wit::key, wit::id, wit::box>("a"_s, Actions(Create(), Read())))
  DEF(1, wit::defs::one<wit::key, wit::id, wit::bin>("b"_s, Actions(Create(), Read())))                       // other names only
  DEF(2, wit::defs::one<wit::key, wit::id, wit::box>("a"_s, Actions(Create(), Read(), Delete())))
  DEF(3, wit::defs::one<wit::key, wit::id, wit::jar>("a"_s, Actions(Create(), Read())))
  DEF(4, wit::defs::one<wit::key, wit::named, wit::box>("a"_s, Actions(Create(), Read())))
  DEF(5, wit::defs::one<wit::id, wit::id, wit::box>("a"_s, Actions(Create(), Read())))
  DEF(6, wit::defs::one<wit::key, wit::id, wit::box>("a"_s, Actions(Update(), Read())))
}
using namespace wit;
using nbdl::string; using nbdl::variant;
template <typename ...T> using tup = hana::tuple<T...>;
template <typename ...T> using seq = std::vector<T...>;
template <int i> using num = std::integral_constant<int, i>;
using n = message::no_impl;
using P = tup<key, id>; using C = message::create_path<id, tup<key>>;
template <int i> using up = nbdl::message_api<def<i>>::upstream_variant_; template <int i> using down = nbdl::message_api<def<i>>::downstream_variant_;
struct upstream_of_0 : up<0> { using up<0>::up; };

#define SIG(GROUP, NAME, ...) WIT void wit_sig_##GROUP##_##NAME(unsigned char* out) \
  { auto d = nbdl::api_signature<__VA_ARGS__>(boost::hana::string<'j', 's', 'o', 'n'>{}); static_assert(sizeof d == 20); for (int i = 0; i < 20; ++i) out[i] = d[i]; }
SIG(1, a, int) SIG(2, a, unsigned) SIG(3, a, long) SIG(4, a, double) SIG(5, a, bool) SIG(6, a, char) SIG(7, a, float) SIG(8, a, unsigned char)
SIG(10, a, string) SIG(11, a, std::string) SIG(11, b, seq<char>) SIG(12, a, std::array<char, 4>) SIG(13, a, seq<int>) SIG(14, a, seq<string>) SIG(15, a, seq<seq<int>>) SIG(16, a, std::map<int, string>)
SIG(16, b, std::unordered_map<int, string>) SIG(16, c, seq<std::pair<int, string>>) SIG(16, d, seq<tup<int, string>>) SIG(17, a, seq<unsigned>)
SIG(20, a, tup<>) SIG(21, a, tup<int>) SIG(22, a, tup<int, int>) SIG(23, a, tup<tup<int, int>>) SIG(24, a, tup<int, tup<int>>) SIG(25, a, tup<tup<int>, int>) SIG(26, a, tup<int, int, int>) SIG(27, a, tup<int, string>) SIG(28, a, tup<string, int>)
SIG(22, b, std::pair<int, int>) SIG(29, a, tup<int, unsigned>)
SIG(30, a, point) SIG(30, b, spot) SIG(30, c, other::point) SIG(31, a, place) SIG(32, a, cube) SIG(33, a, exact) SIG(34, a, shade) SIG(35, a, hue) SIG(36, a, seq<point>) SIG(36, b, seq<spot>) SIG(37, a, tup<point>) SIG(37, b, tup<spot>)
SIG(35, b, tone)
SIG(40, a, box) SIG(40, b, bin) SIG(41, a, jar) SIG(42, a, can)
SIG(50, a, variant<int>) SIG(51, a, variant<int, string>) SIG(52, a, variant<string, int>) SIG(53, a, variant<int, string, bool>) SIG(54, a, variant<point>) SIG(54, b, variant<spot>) SIG(55, a, variant<place>) SIG(56, a, variant<variant<int>>) SIG(57, a, variant<>)
SIG(58, a, variant<seq<int>>)
SIG(60, a, num<1>) SIG(61, a, num<2>) SIG(62, a, hana::type<int>) SIG(63, a, hana::type<long>) SIG(64, a, tup<num<1>, num<2>>) SIG(65, a, tup<num<2>, num<1>>) SIG(66, a, tup<num<12>>)
SIG(67, a, hana::string<'a', 'b'>) SIG(68, a, hana::string<'b', 'a'>) SIG(69, a, hana::string<'a'>)
SIG(70, a, message::upstream_create<C, n, box, n>) SIG(70, b, message::upstream_create<C, n, bin, n>) SIG(71, a, message::upstream_create<C, n, jar, n>) SIG(72, a, message::upstream_create<C, n, box, point>) SIG(73, a, message::upstream_create<C, id, box, n>)
SIG(74, a, message::upstream_create<P, n, box, n>) SIG(74, b, message::upstream_update<P, n, box>) SIG(74, c, message::downstream_read<P, n, box>) SIG(75, a, message::downstream_update<P, n, box, bool>) SIG(76, a, message::downstream_update<P, id, box, bool>)
SIG(77, a, message::upstream_read<P, id>) SIG(78, a, message::upstream_read<tup<key, key>, id>) SIG(79, a, message::upstream_read<P, key>) SIG(80, a, message::downstream_delete<P, id, bool>)
SIG(90, a, up<0>) SIG(90, b, up<1>) SIG(92, a, up<2>) SIG(93, a, up<3>) SIG(94, a, up<4>) SIG(95, a, up<5>) SIG(96, a, up<6>)
SIG(100, a, down<0>) SIG(100, b, down<1>) SIG(102, a, down<2>) SIG(103, a, down<3>) SIG(104, a, down<4>) SIG(105, a, down<5>) SIG(100, c, down<6>)
#define FORMAT(GROUP, NAME, T, ...) WIT void wit_sig_##GROUP##_##NAME(unsigned char* out) \
  { auto d = nbdl::api_signature<T>(boost::hana::string<__VA_ARGS__>{}); for (int i = 0; i < 20; ++i) out[i] = d[i]; }
FORMAT(110, a, int, 'b', 'i', 'n') FORMAT(1, c, int, 'j', 's', 'o', 'n') FORMAT(111, a, int, 'j', 's', 'o') FORMAT(112, a, point, 'b', 'i', 'n') FORMAT(113, a, int, 'n', 'o', 's', 'j')
