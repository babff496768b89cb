CK = 'include/nbdl/app/detail/cookie_parser.hpp'
HEAD = r'''
#include <nbdl/app/detail/cookie_parser.hpp>
using nbdl::app::detail::get_session_cookie;
bool ok = true;
void is(std::string_view text, std::string_view want) { ok = ok && get_session_cookie(text) == want; }
'''
seed('session-long-name', 'C44', 'another cookie, before it, whose name begins with NBDL_SESS', 'the value of a cookie whose name is longer is taken for the session',
     [(CK, '''      auto pos = x.find("NBDL_SESS=");
      if (pos == 0) {''', '''      if (x.substr(0, 9) == "NBDL_SESS") {''')], HEAD + r'''
int main()
{
  is("a=b; NBDL_SESS=1", "1");
  is("NBDL_SESS_OLD=2; NBDL_SESS=1", "1");
  is("NBDL_SESS_OLD=2", "");
  return ok ? 0 : 1;
}
''')
seed('session-padding', 'C44', 'a session value with an equals sign in it, as base64 text ends with', 'the value is cut off at an equals sign',
     [(CK, "auto trim_pos = x.find(';');", 'auto trim_pos = x.find_first_of(";=");')], HEAD + r'''
int main()
{
  is("a=b; NBDL_SESS=abc; c=d", "abc");
  is("NBDL_SESS=YWI=; c=d", "YWI=");
  is("c=d; NBDL_SESS=YQ==", "YQ==");
  return ok ? 0 : 1;
}
''')
seed('session-empty', 'C44', 'a session that was ended (an empty value) before an older one that another path has set', 'an empty session cookie is passed over and a later one is returned',
     [(CK, '''        if (trim_pos != x.npos) {
          x.remove_suffix(x.size() - trim_pos);
        }
        return x;''', '''        auto rest = x;
        if (trim_pos != x.npos) {
          x.remove_suffix(x.size() - trim_pos);
        }
        if (x.size() > 0 || trim_pos == x.npos) {
          return x;
        }
        x = rest;
        x.remove_prefix(trim_pos + 1);
        continue;''')], HEAD + r'''
int main()
{
  is("NBDL_SESS=", "");
  is("NBDL_SESS=; a=b", "");
  is("NBDL_SESS=; NBDL_SESS=old", "");
  return ok ? 0 : 1;
}
''')
SC = 'include/nbdl/detail/string_concat.hpp'
SV = 'include/nbdl/detail/string_concat_view.hpp'
seed('concat-c-string', 'C45', 'a part that has a zero byte in it', 'parts that are strings end at their first zero byte',
     [(SC, '        return string_view(str);', '        return string_view(str.c_str());')], r'''
#include <boost/hana.hpp>
#include <nbdl/detail/string_concat.hpp>
namespace hana = boost::hana;
int main()
{
  using namespace std::literals;
  if (nbdl::detail::string_concat(hana::make_tuple("ab"s, "c"s)) != "abc"s) return 1;
  if (nbdl::detail::string_concat(hana::make_tuple("a\0b"s, "c"s)) != "a\0bc"s) return 2;
  return 0;
}
''')
seed('concat-equal-prefix', 'C45', 'a view of nested views that is compared with a text that differs in a later part', 'a comparison of a nested view goes on from the wrong place when a part of it is empty',
     [(SV, '''          result = result && view.equal(current);
          current += view.length();''', '''          result = view.equal(current);
          if (std::size_t const n = view.length(); n > 1)
            current += n;
          else
            current += 1;''')], r'''
#include <boost/hana.hpp>
#include <algorithm>
#include <nbdl/detail/string_concat_view.hpp>
using nbdl::detail::make_string_concat_view;
int main()
{
  std::string const a("ab"), none, c("c");
  auto const v = make_string_concat_view(a, c);
  auto const w = make_string_concat_view(a, none, c);
  std::string const same("abc "), other("abd ");
  if (!v.equal(same.begin()) || v.equal(other.begin())) return 1;
  if (!w.equal(same.begin()) || w.equal(other.begin())) return 2;
  return 0;
}
''', extra=['dom'])
