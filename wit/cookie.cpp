// The session cookie of a text of cookies.
#include "wit.hpp"
#include <cwctype>
namespace std
{
  // the "C" locale
  [[gnu::always_inline]] inline int wit_iswspace(wint_t c) { return c == 32 || (c >= 9 && c <= 13); }
  [[gnu::always_inline]] inline int wit_isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
}
using std::wit_iswspace;
using std::wit_isspace;
#include <cctype>
#include <algorithm>
#include <locale>
#include <string_view>
#include <string>
#define iswspace wit_iswspace
#define isspace wit_isspace
#include <nbdl/app/detail/cookie_parser.hpp>
namespace wit
{
  void evt_r_view(char const* p, u64 n) noexcept;
}
WIT void wit_session(char const& p, wit::u64 n)
{
  auto const v = nbdl::app::detail::get_session_cookie(std::string_view(&p, n));
  wit::evt_r_view(v.data(), v.size());
}
