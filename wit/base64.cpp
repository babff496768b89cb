// Base64: bytes of known number, unknown values.
#include "wit.hpp"
#include <array>
#include <string>
#include <vector>
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>

namespace wit
{
  void evt_r_len(u64 n) noexcept;
  void evt_r_ch(u64 i, unsigned char c) noexcept;
  void evt_r_ok(bool b) noexcept;
  void evt_r_in(u64 i, unsigned char c) noexcept;

  template <typename S> [[gnu::always_inline]] inline void show(S const& s)
  {
    evt_r_len(s.size());
    for (u64 i = 0; i < s.size(); ++i) evt_r_ch(i, s[i]);
  }
  template <typename S> [[gnu::always_inline]] inline void show_in(S const& s)
  {
    for (u64 i = 0; i < s.size(); ++i) evt_r_in(i, s[i]);
  }
}
using namespace wit;
using nbdl::util::base64_encode;
using nbdl::util::base64_decode;
template <typename T, int n> using arr = std::array<T, n>;

#define ENC(n) \
  WIT void wit_enc_u_##n(arr<unsigned char, n> const& x) { auto s = base64_encode(x); show_in(x); show(s); } \
  WIT void wit_enc_s_##n(arr<signed char, n> const& x) { auto s = base64_encode(x); show_in(x); show(s); } \
  WIT void wit_enc_c_##n(arr<char, n> const& x) { auto s = base64_encode(x); show_in(x); show(s); }
ENC(0) ENC(1) ENC(2) ENC(3) ENC(4) ENC(5) ENC(6) ENC(7) ENC(8) ENC(9) ENC(10) ENC(11) ENC(12) ENC(20) ENC(33) ENC(48)

// decoding to a new vector; into a vector that holds other bytes; into an array of the right and of a wrong size
#define DEC(n) \
  WIT void wit_dec_new_##n(arr<char, n> const& x) { auto s = base64_decode(x); show_in(x); show(s); } \
  WIT void wit_dec_into_##n(arr<unsigned char, n> const& x) { std::vector<unsigned char> v{7, 7, 7}; bool b = base64_decode(x, v); show_in(x); evt_r_ok(b); show(v); }
#define DECA(n, m) \
  WIT void wit_dec_arr_##n##_##m(arr<char, n> const& x, arr<unsigned char, m>& y) { bool b = base64_decode(x, y); show_in(x); evt_r_ok(b); show(y); } \
  WIT void wit_dec_chr_##n##_##m(arr<char, n> const& x, arr<char, m>& y) { bool b = base64_decode(x, y); show_in(x); evt_r_ok(b); show(y); }
DEC(0) DEC(1) DEC(2) DEC(3) DEC(4) DEC(5) DEC(6) DEC(7) DEC(8) DEC(12) DEC(16) DEC(24) DEC(36)
DECA(0, 0) DECA(0, 1) DECA(4, 1) DECA(4, 2) DECA(4, 3) DECA(4, 4) DECA(8, 4) DECA(8, 5) DECA(8, 6) DECA(8, 7) DECA(1, 0) DECA(4, 0) DECA(5, 3) DECA(2, 1)
