D = 'include/nbdl/'
DEF = r'''
#include <boost/hana.hpp>
#include <nbdl/def/directives.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/context.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/null_store.hpp>
#include <boost/mp11.hpp>
namespace hana = boost::hana;
struct p { }; struct c { }; struct e { int x; };
struct outer { int v; }; struct inner { int v; };
namespace nbdl { NBDL_ENTITY(e, x); }
struct ctx_tag { };
namespace nbdl_def_ns {
constexpr auto def()
{
  using namespace nbdl_def;
  return Context(Producer(Type<p>, %s), Consumers(Consumer(Type<c>)));
}
}
namespace nbdl { template <> struct make_def_impl<ctx_tag> { static constexpr auto apply() { return nbdl_def_ns::def(); } }; }
struct mine { int code; };
using api = nbdl::message_api<ctx_tag, mine>;
'''
seed('no-answer-for-what-is-not-there', 'C33', 'an access point of an entity without attributes of its own (one that is read and never written), read where there is nothing', 'the downstream channel of the api has no message for it: the reader cannot be told',
     [(D + 'def/builder/entity_messages.hpp', """  , nbdl::message::downstream_read<Path, Uid, nbdl::not_found>\n""", "")],
     DEF % 'AccessPoint(PathKey<outer>, Entity<e>, Store<nbdl::null_store>, Actions(Read()))' + r'''
using path = hana::tuple<outer>;
using answer = decltype(nbdl::message::make_downstream_read(std::declval<path>(), nbdl::message::no_uid, nbdl::not_found{}));
template <typename V> struct has;
template <template <typename ...> class V, typename ...T> struct has<V<T...>> { static constexpr bool value = (std::is_same<T, answer>::value || ...); };
int main() { return has<typename api::downstream_variant_>::value ? 0 : 1; }
''')
seed('create-with-one-key-names-it', 'C10', 'an access point that is not under another', 'to create something there, a key has to be sent that is not known yet; a create without one is no message of the api',
     [(D + 'def/builder/entity_messages.hpp', 'using CreatePath = nbdl::detail::make_create_path_t<Path>;', 'using CreatePath = std::conditional_t<(Length::value > 1), nbdl::detail::make_create_path_t<Path>, Path>;')],
     DEF % 'AccessPoint(PathKey<outer>, Entity<e>, Store<nbdl::null_store>, Actions(Create(), Read()))' + r'''
template <typename L> struct creates;
template <template <typename ...> class V, typename ...T> struct creates<V<T...>>
{
  template <typename M> static constexpr bool keyless()
  {
    if constexpr (nbdl::UpstreamMessage<M>)
    {
      if constexpr (nbdl::message::is_create<M>)
        return std::is_same_v<std::decay_t<decltype(nbdl::message::get_path(std::declval<M const&>()))>, nbdl::message::create_path<outer, hana::tuple<>>>;
      else return false;
    }
    else return false;
  }
  static constexpr bool any = (false || ... || keyless<T>());
};
int main() { return creates<typename api::upstream_variant_>::any ? 0 : 1; }
''')
seed('page-handler-loses-message', 'C43', 'a handler that sends a message it keeps, and sends it again', 'what was sent is moved out of the message of the handler',
     [(D + 'webui/detail/event_receiver.hpp', '        , std::forward<decltype(message)>(message)\n', '        , std::move(message)\n')], r'''
#include "dom.hpp"
struct book_tag { };
struct book { using hana_tag = book_tag; decltype(hana::make_map(hana::make_pair("a"_s, std::string()))) inner; book(std::string x) : inner(hana::make_map(hana::make_pair("a"_s, x))) { } book(book const&) = delete; };
struct change { std::string to; };
namespace nbdl
{
  template <> struct get_impl<book_tag> { template <typename S, typename K> static constexpr decltype(auto) apply(S&& s, K&& k) { return nbdl::get(std::forward<S>(s).inner, std::forward<K>(k)); } };
  template <> struct apply_action_impl<book_tag> { template <typename S, typename A> static bool apply(S& s, A&& a) { std::string t(std::forward<A>(a).to); s.inner["a"_s] += t; return true; } };
}
int main()
{
  book s("x");
  page p;
  auto r = p.show(element("div"_s, event_attribute("click"_s, [](auto&& send, auto const&) { change c{std::string(40, 'y')}; send(c); send(c); }, get("a"_s))), s);
  int n = p.fire(p.body->kids.front(), "click");
  return n == 1 && s.inner["a"_s] == "x" + std::string(80, 'y') ? 0 : 1;
}
''', extra=['dom'])
seed('page-yes-no-as-text', 'C42', 'a text that shows a value that is true or false', 'the value is written as a control character',
     [(D + 'webui/detail/dom_manips.hpp', 'if constexpr (std::is_integral<std::decay_t<T>>::value)', 'if constexpr (std::is_integral<std::decay_t<T>>::value && !std::is_same_v<std::decay_t<T>, bool>)')], r'''
#include "dom.hpp"
int main()
{
  auto s = hana::make_map(hana::make_pair("f"_s, true));
  page p;
  auto r = p.show(element("div"_s, text_node(get("f"_s))), s);
  p.is("<div>1</div>");
  s["f"_s] = false;
  notify(r);
  p.is("<div>0</div>");
  return ok ? 0 : 1;
}
''', extra=['dom'])
