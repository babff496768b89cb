from mkseed import seed
M = 'include/nbdl/message.hpp'
V = 'include/nbdl/variant.hpp'
D = 'include/nbdl/'
PRE = r'''
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
'''
seed('message-takes-payload', 'C07', 'a create message that is made of a payload its maker goes on using', 'making an upstream create without private payload empties the payload it is made of',
     [(M, """      std::forward<Path>(path)
    , std::forward<Uid>(uid)
    , std::forward<Payload>(payload)
    , no_impl{}""", """      std::forward<Path>(path)
    , std::forward<Uid>(uid)
    , std::move(payload)
    , no_impl{}""")], r'''
#include <nbdl/message.hpp>
#include <boost/hana.hpp>
#include <string>
namespace message = nbdl::message;
int main()
{
  std::string payload(100, 'x');
  auto m = message::make_upstream_create(boost::hana::make_tuple(1, 2), message::no_uid, payload);
  return message::get_payload(m) == payload && payload.size() == 100 ? 0 : 1;
}
''')
seed('optional-takes-value', 'C15', 'an optional made of a variable that is used afterwards', 'make_optional moves out of the variable it is given',
     [(V, 'return nbdl::optional<std::decay_t<T>>(value);', 'return nbdl::optional<std::decay_t<T>>(std::move(value));')], r'''
#include <nbdl/variant.hpp>
#include <string>
int main()
{
  std::string s(100, 'x');
  auto o = nbdl::make_optional(s);
  return o.is<std::string>() && s.size() == 100 ? 0 : 1;
}
''')
seed('stored-pipe-steps-taken', 'C17', 'a pipe that is kept, whose steps own something, and that is run twice', 'running a stored pipe synchronously moves its steps out of it',
     [(D + 'detail/wrap_promise.hpp', 'auto temp = std::forward<X>(x); //??', 'auto temp = std::move(x); //??')], PRE + r'''
int main()
{
  std::vector<std::size_t> got;
  auto const p_ = [&](int, std::string s) { return nbdl::pipe([s](int i) { return i + int(s.size()); }, [&got](int i) { got.push_back(i); }); };
  auto p = p_(0, std::string(100, 'x'));
  nbdl::run_sync(p, 1);
  nbdl::run_sync(p, 1);
  return got.size() == 2 && got[0] == 101 && got[1] == 101 ? 0 : 1;
}
''')
seed('loop-round-by-reference', 'C17', 'a loop whose last step resolves with a value and whose first step tells values from references', 'the first step of a loop gets a reference, not the value, from the second round on',
     [(D + 'run_async_loop.hpp', '        end->promise.resolve(std::forward<Args>(args)...);', '        end->promise.resolve(args...);')], PRE + r'''
struct first
{
  std::vector<int>& got;
  int operator()(std::string& s) const { got.push_back(-1); return int(s.size()); }
  int operator()(std::string&& s) const { got.push_back(int(s.size())); return int(s.size()); }
};
int main()
{
  std::vector<int> got;
  std::function<void()> stop;
  int round = 0;
  nbdl::run_async_loop(nbdl::pipe(
      first{got}
    , nbdl::promise([&](auto& r, int n) { stop = [&r] { r.terminate(); }; if (++round < 3) r.resolve(std::string(n + 1, 'x')); })), std::string("x"));
  stop();
  return got == std::vector<int>{1, 2, 3} ? 0 : 1;
}
''')
seed('try-runtime-errors-only', 'C18', 'a tried step that throws an exception which is no runtime_error', 'exceptions of other standard types are replaced by an "Unknown exception"',
     [(D + 'try.hpp', '        catch (std::exception const& e)\n', '        catch (std::runtime_error const& e)\n')], PRE + r'''
int main()
{
  std::string got;
  nbdl::run_sync(nbdl::pipe(nbdl::try_([](int i) -> int { if (i) throw std::out_of_range("index 7"); return i; }), nbdl::catch_([&](std::exception const& e) { got = e.what(); })), 1);
  return got == "index 7" ? 0 : 1;
}
''')
seed('catch-of-nothing-leaks', 'C19', 'an asynchronous pipe that is rejected without values, by a handler that takes none', 'the run of a pipe that handles a rejection without values is never released',
     [(D + 'catch.hpp', '        r.terminate();', '        if constexpr (sizeof...(Args) != 0)\n          r.terminate();')], PRE + r'''
int main()
{
  auto alive = std::make_shared<int>(1);
  std::weak_ptr<int> watch = alive;
  int caught = 0;
  nbdl::run_async(nbdl::pipe(nbdl::promise([a = std::move(alive)](auto& r, int) { r.reject(); }), nbdl::catch_([&] { caught++; })), 1);
  return caught == 1 && watch.expired() ? 0 : 1;
}
''')
seed('hold-takes-original', 'C20', 'hold of a variable that is used afterwards', 'hold moves the value out of the variable it is given instead of copying it',
     [(D + 'hold.hpp', 'detail::holder<T>{std::forward<decltype(value)>(value)}', 'detail::holder<T>{std::move(value)}')], PRE + r'''
int main()
{
  std::string s(100, 'x');
  std::size_t n = 0;
  nbdl::run_sync(nbdl::pipe(nbdl::hold(s), [&](std::string& t) { n = t.size(); }), 1);
  return n == 100 && s.size() == 100 ? 0 : 1;
}
''')
