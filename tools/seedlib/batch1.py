CTX = 'include/nbdl/context.hpp'
CTXDEMO = '''
#include "ctx.hpp"
using namespace wit;
int main()
{
  auto c = std::make_unique<Ctx>();
  events.clear();
%s
  return failures != 0;
}
'''
seed('ctx-foreign-store-read-by-producer', 'C01',
  'a read answered downstream for a path another store listens to',
  'stores listening to a path are no longer offered downstream reads of that path',
  [(CTX, '''      constexpr auto listeners = hana::find(ListenerLookup{}, path_type).value_or(mpdef::list<>{});
      hana::for_each(listeners, [&](auto listener_path_type)
      {
        nbdl::apply''', '''      constexpr auto listeners = hana::find(ListenerLookup{}, path_type).value_or(mpdef::list<>{});
      // a read does not alter anything
      if constexpr(!message::is_read<Message>) hana::for_each(listeners, [&](auto listener_path_type)
      {
        nbdl::apply''')],
  CTXDEMO % '''
  nbdl::apply_message(*c, message::make_downstream_read(mk<0, 1>(3, 4), uid{5}, pay{6}));
  if (count("foreign2 ") != 1 || count("foreign13 ") != 1) return 1;
''', extra=['ctx.hpp'])

seed('ctx-consumer-before-store', 'C01',
  'a downstream delete observed by a consumer that looks at the store when it is told',
  'the consumers learn of a downstream delete before it is applied to its store',
  [(CTX, '''      else
      {
        if constexpr(!decltype(hana::equal(
          hana::type_c<decltype(nbdl::apply_message(store, m))>''', '''      else
      {
        if constexpr(message::is_downstream<Message> && message::is_delete<Message>)
        {
          // let go of the entity before it vanishes
          propagate_downstream(m);
        }

        if constexpr(!decltype(hana::equal(
          hana::type_c<decltype(nbdl::apply_message(store, m))>'''),
   (CTX, '''        else
        {
          propagate_downstream(m);
        }
      }

      // apply''', '''        else if constexpr(!message::is_delete<Message>)
        {
          propagate_downstream(m);
        }
      }

      // apply''')],
  CTXDEMO % '''
  nbdl::apply_message(*c, message::make_downstream_delete(mk<0, 1>(3, 4), uid{5}, true));
  if (events.empty() || events[0] != "apply1 dd 1 3 4 5 - 1") return 1;
''', extra=['ctx.hpp'])

seed('ctx-upstream-update-unless-changed', 'C02',
  'an upstream update the store says changed nothing (e.g. an optimistic store that already holds the value)',
  'an upstream update is not forwarded to its producer when the local store reports no change',
  [(CTX, '''          if (nbdl::apply_message(store, m))
          {
            // the state changed
            notify_state_consumers(message::get_normalized_path(m));
          }''', '''          if (nbdl::apply_message(store, m))
          {
            // the state changed
            notify_state_consumers(message::get_normalized_path(m));
          }
          else if constexpr(message::is_upstream<Message> && message::is_update<Message>)
          {
            return;
          }''')],
  CTXDEMO % '''
  store_changes = false;
  nbdl::apply_message(*c, message::make_upstream_update(mk<0, 1>(3, 4), uid{5}, pay{6}));
  if (count("up0 uu 1 3 4 5 6 -") != 1) return 1;
''', extra=['ctx.hpp'])

seed('ctx-notify-on-delete-always', 'C03',
  'a delete of an entity the store does not know (it reports no change)',
  'state consumers are told of a change although the store reported none',
  [(CTX, '''          if (nbdl::apply_message(store, m))
          {
            // the state changed
            notify_state_consumers(message::get_normalized_path(m));
          }''', '''          bool const is_changed = nbdl::apply_message(store, m) | message::is_delete<Message>;
          if (is_changed)
          {
            // the state changed
            notify_state_consumers(message::get_normalized_path(m));
          }''')],
  CTXDEMO % '''
  store_changes = false;
  nbdl::apply_message(*c, message::make_downstream_delete(mk<0, 1>(3, 4), uid{5}, true));
  if (count("notify")) return 1;
  events.clear(); store_changes = true;
  nbdl::apply_message(*c, message::make_downstream_delete(mk<0, 1>(3, 4), uid{5}, true));
  if (count("notify3 1 3 4") != 1 || count("notify4 1 3 4") != 1) return 1;
''', extra=['ctx.hpp'])

seed('ctx-unresolved-read-resent', 'C04',
  'two consumers reading the same key before the first answer arrived',
  'an upstream read of a key that is already being fetched is forwarded to the producer again',
  [(CTX, '''          [&](nbdl::unresolved)
          {
            // Do nothing.''', '''          [&](nbdl::unresolved)
          {
            if constexpr(message::has_uid<Message>)
            {
              // the requestor waits for an answer to this uid
              propagate_upstream(m);
            }
            // Otherwise do nothing.''')],
  CTXDEMO % '''
  lookup_result = 1;
  nbdl::apply_message(*c, message::make_upstream_read(mk<0, 1>(3, 4), uid{5}));
  if (count("up")) return 1;
''', extra=['ctx.hpp'])

seed('ctx-match-mutable-value', 'C05',
  'a reader that takes what it reads by mutable reference',
  'a reader given to match on a context gets the value of the store as mutable and can change it without anybody being told',
  [(CTX, '''nbdl::match(s.stores[path_type], k, [&](auto const& value)
      {''', '''nbdl::match(s.stores[path_type], k, [&](auto&& value)
      {''')],
  CTXDEMO % '''
  lookup_result = 2;
  nbdl::match(*c, mk<0, 1>(3, 4), see{});
  if (count("seen2c 701") != 1) return 1;
''', extra=['ctx.hpp'])

seed('ctx-init-consumers-while-producers', 'C06',
  'an actor that is both a producer and a consumer, or a definition whose actors are default constructed with more than one consumer',
  'an actor that is a consumer as well as a state consumer is initialised twice',
  [(CTX, '''        if constexpr(nbdl::Consumer<Actor>)
        {
          nbdl::consumer_init(actor);
        }
      });
    };''', '''        if constexpr(nbdl::Consumer<Actor>)
        {
          nbdl::consumer_init(actor);
        }
        if constexpr(nbdl::StateConsumer<Actor> && nbdl::Consumer<Actor>)
        {
          nbdl::consumer_init(actor);
        }
      });
    };''')],
  CTXDEMO.replace('events.clear();\n', '', 1) % '''
  if (count("cinit2") != 1 || count("cinit3") != 1 || count("cinit5") != 1) return 1;
''', extra=['ctx.hpp'])

MSG = 'include/nbdl/message.hpp'
MSGDEMO = '''
#include <nbdl/message.hpp>
#include <boost/hana.hpp>
#include <string>
namespace hana = boost::hana;
namespace message = nbdl::message;
struct key { int h; };
struct uid { int h; };
struct pay { int h; };
struct priv { int h; };
int main()
{
%s
  return 0;
}
'''
seed('msg-create-serialized-without-private', 'C07',
  'a create with a private payload that is serialized to be sent to a server',
  'the parts of an upstream create exposed for serialization leave out the private payload',
  [(MSG, '''  NBDL_DETAIL_MESSAGE_BIND_SEQUENCE_IMPL(upstream_create);
''', '''  template <> struct bind_sequence_impl<message::upstream_create_tag> {
    template <typename S, typename F>
    static constexpr auto apply(S&& s, F&& f)
    {
      return std::forward<F>(f)(hana::at_c<0>(std::forward<S>(s).storage)
                              , hana::at_c<1>(std::forward<S>(s).storage)
                              , hana::at_c<2>(std::forward<S>(s).storage));
    }
  };
''')],
  MSGDEMO % '''
  auto m = message::make_upstream_create(message::make_create_path<key>(hana::make_tuple(key{7})), uid{2}, pay{3}, priv{4});
  int n = 0;
  nbdl::bind_sequence(m, [&](auto const& ...x) { n = sizeof...(x); return 0; });
  if (n != 4) return 1;
''')

seed('msg-with-key-drops-uid', 'C08',
  'a create with a private payload whose key is given later, identified by its uid',
  'the downstream create made with a key given later loses the uid of the request',
  [(MSG, '''      hana::append(get_path(std::forward<M>(m)).parent_path, Key{std::forward<decltype(k)>(k)})
    , hana::sfinae(get_uid)(std::forward<M>(m)).value_or(no_impl{})''', '''      hana::append(get_path(std::forward<M>(m)).parent_path, Key{std::forward<decltype(k)>(k)})
    , [&]
      {
        // a private request is answered anonymously
        if constexpr(has_uid<M> && !has_private_payload<M>) return get_uid(m);
        else return no_impl{};
      }()''')],
  MSGDEMO % '''
  auto m = message::make_upstream_create(message::make_create_path<key>(hana::make_tuple(key{7})), uid{2}, pay{3}, priv{4});
  auto d = message::to_downstream_with_key(m, key{9});
  if (!message::has_uid<decltype(d)>) return 1;
''')
