MAP = 'include/nbdl/map_store.hpp'
MAPDEMO = '''
#include <nbdl/map_store.hpp>
#include <boost/hana.hpp>
#include <string>
namespace hana = boost::hana;
namespace message = nbdl::message;
using key = hana::tuple<int, std::string>;
using store_t = nbdl::map_store<key, std::string>;
template <typename S> std::string show(S const& s, key const& k)
{
  std::string r = "none";
  nbdl::match(s, k, hana::overload_linearly(
    [&](nbdl::not_in_set) { r = "none"; }, [&](nbdl::unresolved) { r = "unresolved"; },
    [&](std::string const& v) { r = v; }, [&](auto const&) { r = "other"; }));
  return r;
}
int main()
{
  store_t s;
%s
  return 0;
}
'''
seed('map-read-replaces-settled', 'C11', 'an upstream read of a key that already has a value (a refresh)',
  'an upstream read replaces the value of its key by the unresolved placeholder if the map just rehashed or not: a settled key is unsettled',
  [(MAP, '''        if (map.find(message::get_path(m)) == map.end())
        {
          map[message::get_path(std::forward<Message>(m))] = nbdl::unresolved{};
        }''', '''        if constexpr(message::has_uid<Message>)
        {
          // somebody waits for the answer
          map[message::get_path(m)] = nbdl::unresolved{};
        }
        else if (map.find(message::get_path(m)) == map.end())
        {
          map[message::get_path(std::forward<Message>(m))] = nbdl::unresolved{};
        }''')],
  MAPDEMO % '''
  nbdl::apply_message(s, message::make_downstream_create(key{1, "a"}, message::no_uid, std::string("x"), true));
  nbdl::apply_message(s, message::make_upstream_read(key{1, "a"}, 7));
  if (show(s, key{1, "a"}) != "x") return 1;
''')

seed('compose-action-moves', 'C12', 'an action that is addressed to several stores, one after the other',
  'addressing an action to a key moves the contents out of the action it is given by reference',
  [('include/nbdl/store_compose.hpp', '''    return detail::store_composite_action_t<Key, std::decay_t<Action>>{
      std::forward<Action>(a)
    };''', '''    return detail::store_composite_action_t<Key, std::decay_t<Action>>{
      std::move(a)
    };''')],
  '''
#include <nbdl/store_compose.hpp>
#include <string>
struct k1 { };
int main()
{
  std::string action(100, 'x');
  auto c = nbdl::store_composite_action(k1{}, action);
  return action.size() == 100 ? 0 : 1;
}
''')

LV = 'include/nbdl/local_version.hpp'
seed('local-version-stale-pending', 'C13',
  'an optimistic change that is confirmed as it was made, followed by a change by somebody else and another optimistic change',
  'pending changes that changed nothing when they were settled are kept and applied again later',
  [(LV, '''          bool result = nbdl::apply_delta(std::move(store.pending_delta), store.value);
          store.pending_delta = {};
          return result;''', '''          bool result = nbdl::apply_delta(std::move(store.pending_delta), store.value);
          if (result)
          {
            store.pending_delta = {};
          }
          return result;''')],
  '''
#include <nbdl/entity.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/message.hpp>
#include <boost/hana.hpp>
#include <string>
namespace hana = boost::hana;
namespace message = nbdl::message;
struct ent { int a; std::string b; };
namespace nbdl
{
  template <> struct entity_members_impl<ent> { using type = mpdef::list<NBDL_MEMBER(&ent::a), NBDL_MEMBER(&ent::b)>; };
  template <> struct get_impl<ent> { template <typename S> static constexpr decltype(auto) apply(S&& s) { return std::forward<S>(s); } };
}
int main()
{
  nbdl::local_version<ent> v(ent{1, "one"});
  auto send = [&](nbdl::uid u, ent from, ent to, bool confirmed)
  { nbdl::apply_message(v, message::make_downstream_update(hana::make_tuple(1), u, nbdl::make_delta<nbdl::delta_tag>(to, from), confirmed)); };
  auto gen = nbdl::make_uid_generator();
  auto u1 = gen(), u2 = gen();
  send(u1, ent{1, "one"}, ent{2, "one"}, false);
  send(u1, ent{1, "one"}, ent{2, "one"}, true);
  v.value.a = 9;
  send(u2, ent{9, "one"}, ent{9, "two"}, false);
  send(u2, ent{9, "one"}, ent{9, "two"}, true);
  return v.value.a == 9 && v.value.b == "two" ? 0 : 1;
}
''')

DL = 'include/nbdl/delta.hpp'
seed('delta-last-member-decides', 'C14',
  'a delta with several members set of which the last one already has that value',
  'applying a delta reports no change although an earlier member changed',
  [(DL, '''              if (!hana::equal(value, x))
              {
                result = true;
                x = value;
              }''', '''              result = !hana::equal(value, x);
              if (result)
              {
                x = value;
              }''')],
  '''
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <string>
struct ent { int a; std::string b; };
namespace nbdl
{ template <> struct entity_members_impl<ent> { using type = mpdef::list<NBDL_MEMBER(&ent::a), NBDL_MEMBER(&ent::b)>; }; }
int main()
{
  ent e{1, "one"};
  bool changed = nbdl::apply_delta(nbdl::make_delta<nbdl::delta_tag>(ent{2, "one"}), e);
  return changed && e.a == 2 ? 0 : 1;
}
''')

VR = 'include/nbdl/variant.hpp'
seed('variant-unknown-id-resets', 'C15', 'a type id that is out of range arriving from outside',
  'binding an unknown type id into a variant resets it to its first alternative',
  [(VR, '''        if (!(type_id_x >= 0 && type_id_x < static_cast<int>(sizeof...(Tn) + 1)))
        {
          return;
        }''', '''        if (!(type_id_x >= 0 && type_id_x < static_cast<int>(sizeof...(Tn) + 1)))
        {
          // what is not known is unresolved
          type_id_x = 0;
        }''')],
  '''
#include <nbdl/bind_variant.hpp>
#include <nbdl/variant.hpp>
#include <string>
int main()
{
  nbdl::variant<int, std::string> v(5);
  nbdl::bind_variant(7, v, [](auto&&...) { });
  return v.is<int>() ? 0 : 1;
}
''')
seed('variant-equal-empty-first', 'C15', 'comparing variants that hold values of a type whose size is that of an empty one',
  'variants holding different values of a trivially copyable one byte type are equal',
  [(VR, 'if constexpr(std::is_empty<V>::value)', 'if constexpr(sizeof(V) == sizeof(nbdl::unresolved))')],
  '''
#include <nbdl/variant.hpp>
int main()
{
  nbdl::variant<bool, int> a(true), b(false);
  return boost::hana::equal(a, b) ? 1 : 0;
}
''')

AA = 'include/nbdl/apply_action.hpp'
seed('action-call-before-assign', 'C16', 'an action that can both be assigned to the value and be called with it',
  'an action that can be assigned is called with the value instead',
  [(AA, 'if constexpr(std::is_assignable<Store&, Action>::value)', 'if constexpr(std::is_assignable<Store&, Action>::value && !std::is_invocable<Action, Store&>::value)')],
  '''
#include <nbdl/apply_action.hpp>
struct val { int x = 0; };
struct act { int y; operator val() const { return val{y}; } void operator()(val& v) const { v.x = -1; } };
int main()
{
  val v;
  nbdl::apply_action(v, act{4});
  return v.x == 4 ? 0 : 1;
}
''')
seed('context-store-applies-upstream', 'C16', 'an upstream update sent to the path of a plain value kept in a context',
  'a plain store of a context applies upstream updates, not only downstream ones',
  [('include/nbdl/context_store.hpp', 'if constexpr(message::is_downstream<Message> && message::is_update<Message>)', 'if constexpr(message::is_update<Message>)')],
  '''
#include <nbdl/apply_action.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/message.hpp>
#include <boost/hana.hpp>
namespace message = nbdl::message;
int main()
{
  nbdl::context_store_t<int> s;
  nbdl::apply_message(s, message::make_upstream_update(boost::hana::make_tuple(1), message::no_uid, 5));
  return s.store == 0 ? 0 : 1;
}
''')

PIPE = '''
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <functional>
#include <string>
int main()
{
%s
  return 0;
}
'''
seed('tap-forwards', 'C17', 'a tap that takes its argument by value (or moves from it) and a movable value',
  'a tap that takes its argument by value empties the value the next step gets',
  [('include/nbdl/tap.hpp', 'fn(args...);', 'fn(std::forward<decltype(args)>(args)...);')],
  PIPE % '''
  std::string got;
  nbdl::run_sync(nbdl::pipe([] { return std::string(100, 'x'); }, nbdl::tap([](std::string s) { s += "y"; }),
                            [&](std::string const& s) { got = s; }));
  if (got.size() != 100) return 1;
''')
seed('run-call-ends-twice', 'C19', 'an asynchronous pipe whose last step calls its resolver as a function',
  'a run whose last step calls its resolver as a function is never released',
  [('include/nbdl/run_async.hpp', '''      void operator()(Args&&...)
      {
        delete end;
      }''', '''      void operator()(Args&&...)
      { }''')],
  PIPE % '''
  static int alive = 0;
  struct probe { probe() { ++alive; } probe(probe const&) { ++alive; } ~probe() { --alive; } };
  { nbdl::run_async(nbdl::pipe(nbdl::promise([p = probe{}](auto&& r, auto&&...) { r(5); }))); }
  if (alive) return 1;
''')
seed('catch-decayed-handler', 'C18', 'a handler that takes the rejected object by mutable reference, followed by a general one',
  'a handler that takes the rejection by lvalue reference is passed over in favour of a later one',
  [('include/nbdl/catch.hpp', 'if constexpr(std::is_invocable<RejectionHandler, Args...>::value)', 'if constexpr(std::is_invocable<RejectionHandler, std::decay_t<Args>...>::value)')],
  PIPE % '''
  int first = 0, second = 0;
  struct err { int n; };
  nbdl::run_sync(nbdl::pipe(nbdl::promise([](auto&& r) { err e{1}; r.reject(e); }),
                            nbdl::catch_([&](err& e) { first += e.n; }), nbdl::catch_([&](auto&&) { ++second; })));
  if (first != 1 || second != 0) return 1;
''')
seed('catch-terminates-first', 'C19', 'an asynchronous pipe whose handler uses its own state',
  'the pipe is released before its rejection handler, which lives in it, has run',
  [('include/nbdl/catch.hpp', '''        fn(std::forward<Args>(args)...);
        r.terminate();''', '''        r.terminate();
        fn(std::forward<Args>(args)...);''')],
  PIPE % '''
  static bool alive = true; static bool bad = false;
  struct guard { bool on = true; guard() = default; guard(guard const&) = default; guard(guard&& o) : on(o.on) { o.on = false; } ~guard() { } };
  struct probe { bool last; ~probe() { if (last) alive = false; } probe(bool l) : last(l) { } probe(probe const& o) : last(o.last) { }
                 probe(probe&& o) : last(o.last) { o.last = false; } };
  alive = true;
  struct handler { probe p; void operator()(int) { bad = !alive; } };
  nbdl::run_async(nbdl::pipe(nbdl::promise([](auto&& r) { r.reject(5); }), nbdl::catch_(handler{probe{true}})));
  if (bad || alive) { if (bad) return 1; }
''')
seed('hold-copies-each-time', 'C20', 'a pipe that loops and changes the held value',
  'every pass over a hold gives the later steps a fresh copy instead of the held object',
  [('include/nbdl/hold.hpp', '''        resolve(value);''', '''        if constexpr(std::is_copy_constructible<T>::value)
        {
          T current = value;
          resolve(current);
        }
        else
        {
          resolve(value);
        }''')],
  PIPE % '''
  int passes = 0, last = 0;
  nbdl::run_async_loop(nbdl::pipe(nbdl::hold(0), [&](int& n) -> int& { last = ++n; return n; },
    nbdl::promise([&](auto&& r, auto&&...) { if (++passes == 3) r.terminate(); else r.resolve(); })));
  if (last != 3) return 1;
''')
