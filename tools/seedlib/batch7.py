DOM = 'include/nbdl/webui/detail/dom_manips.hpp'
LIS = 'include/nbdl/webui/detail/dom_event_listener.hpp'
REC = 'include/nbdl/webui/detail/event_receiver.hpp'
seed('page-branch-stale', 'C42', 'a change of the state that shows another branch and changes what that branch says', 'what a branch says is not rewritten by the notification that shows it',
     [(DOM, '''      update_branch();

      // update children
''', '''      auto const before = branch_id;
      update_branch();
      if (before != branch_id)
        return;

      // update children
''')], r'''
#include "dom.hpp"
int main()
{
  auto s = hana::make_map(hana::make_pair("a"_s, std::string("1")), hana::make_pair("v"_s, nbdl::variant<std::string, int>(std::string("x"))));
  page p;
  auto r = p.show(element("div"_s, match(get("v"_s), when<int>(element("b"_s, text_node(get("a"_s)))), when<>(element("i"_s)))), s);
  p.is("<div><i></i></div>");
  s["v"_s] = 5;
  s["a"_s] = "2";
  notify(r);
  p.is("<div><b>2</b></div>");
  return ok ? 0 : 1;
}
''', extra=['dom'])
seed('page-empty-attribute', 'C42', 'an attribute that becomes empty', 'an attribute whose new text is empty keeps its old one',
     [(DOM, '''      el.template call<void>(
        "setAttribute"
      , to_json_val(AttributeName{})
      , emscripten::val(std::move(text_value))
      );
''', '''      if (text_value.empty())
      {
        return;
      }
      el.template call<void>(
        "setAttribute"
      , to_json_val(AttributeName{})
      , emscripten::val(std::move(text_value))
      );
''')], r'''
#include "dom.hpp"
int main()
{
  auto s = hana::make_map(hana::make_pair("a"_s, std::string("1")));
  page p;
  auto r = p.show(element("div"_s, attribute("title"_s, get("a"_s))), s);
  p.is("<div title=1></div>");
  s["a"_s] = "";
  notify(r);
  p.is("<div title=></div>");
  return ok ? 0 : 1;
}
''', extra=['dom'])
seed('page-negative', 'C42', 'a text that shows a negative number', 'negative numbers are shown as large ones',
     [(DOM, 'return emscripten::val(std::to_string(t));', 'return emscripten::val(std::to_string(static_cast<unsigned>(t)));')], r'''
#include "dom.hpp"
int main()
{
  auto s = hana::make_map(hana::make_pair("n"_s, 4));
  page p;
  auto r = p.show(element("div"_s, text_node(get("n"_s))), s);
  p.is("<div>4</div>");
  s["n"_s] = -4;
  notify(r);
  p.is("<div>-4</div>");
  return ok ? 0 : 1;
}
''', extra=['dom'])
EVENTS = r'''
#include "dom.hpp"
struct book_tag { };
struct book { using hana_tag = book_tag; decltype(hana::make_map(hana::make_pair("a"_s, std::string()))) inner; book(std::string x) : inner(hana::make_map(hana::make_pair("a"_s, x))) { } book(book const&) = delete; };
struct change { std::string to; };
namespace nbdl
{
  template <> struct get_impl<book_tag> { template <typename S, typename K> static constexpr decltype(auto) apply(S&& s, K&& k) { return nbdl::get(std::forward<S>(s).inner, std::forward<K>(k)); } };
  template <> struct apply_action_impl<book_tag> { template <typename S, typename A> static bool apply(S& s, A&& a) { s.inner["a"_s] += a.to; return true; } };
}
inline int told = 0;
inline std::string seen;
'''
seed('page-input-listener', 'C43', 'a page with a file input that ends while its element stays', 'the element around a file input keeps passing clicks to it after the page has ended',
     [(LIS, '''    ~dom_event_listener()
    {
      el.template''', '''    ~dom_event_listener()
    {
      if (not receiver)
      {
        return;
      }
      el.template''')], EVENTS + r'''
int main()
{
  book s("x");
  page p;
  dom::ref div;
  {
    auto r = p.show(element("div"_s, hidden_file_input([](auto&&, auto const&) { ++told; }, get("a"_s))), s);
    div = p.body->kids.front();
    if (div->listeners.size() != 1) return 2;
  }
  return div->listeners.empty() && div->kids.front()->listeners.empty() ? 0 : 1;
}
''', extra=['dom'])
seed('page-second-send', 'C43', 'a handler that sends twice', 'only the first that a handler sends is applied',
     [(REC, '''      auto send = [&](auto&& message)
      {
''', '''      bool sent = false;
      auto send = [&](auto&& message)
      {
        if (sent)
        {
          return;
        }
        sent = true;
''')], EVENTS + r'''
int main()
{
  book s("x");
  page p;
  auto r = p.show(element("div"_s, event_attribute("click"_s, [](auto&& send, auto const&) { send(change{"y"}); send(change{"z"}); }, get("a"_s))), s);
  int n = p.fire(p.body->kids.front(), "click");
  return n == 1 && s.inner["a"_s] == "xyz" ? 0 : 1;
}
''', extra=['dom'])
seed('page-event-place', 'C43', 'a handler that looks at the event', 'the event is put in the place of the handler, and the handler is given nothing',
     [(REC, 'return self.vals->event_data; }', 'return self.vals->handler; }')], EVENTS + r'''
int main()
{
  book s("x");
  page p;
  auto r = p.show(element("div"_s, event_attribute("click"_s, [](auto&&, nbdl::detail::js_val const& e) { seen = e.as_val().v.text; }, get(event_data))), s);
  int n = p.fire(p.body->kids.front(), "click", "it");
  return n == 1 && seen == "it" ? 0 : 1;
}
''', extra=['dom'])
