"""What the types of a program can be used as."""
from .decl import chunks

HEAD = '''#include <boost/hana.hpp>
#include <boost/hana/ext/std/array.hpp>
''' + ''.join(f'#include <nbdl/{x}.hpp>\n' for x in '''concept/BindableMap concept/BindableSequence concept/BindableVariant concept/Buffer concept/Container concept/Delta concept/DownstreamMessage concept/DynamicBuffer concept/Endpoint
concept/EndpointInfo concept/Entity concept/EntityContainer concept/NetworkStore concept/Path concept/Producer concept/Consumer concept/StateConsumer concept/State concept/Store concept/String concept/UpstreamMessage
concept/extras bind_sequence bind_map bind_variant context_store delta endpoint_open endpoint_send_close endpoint_send_message entity local_version map_store message null_store store_compose string strong_alias uid variant'''.split()) + '''#include <mpdef/list.hpp>
#include <array>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
namespace hana = boost::hana; namespace message = nbdl::message;
namespace w {
struct none { int a; }; struct ent { int a; std::string b; }; struct emp { }; struct key { int i; };
struct prod { }; struct cons { }; struct watcher { }; struct store { int v; }; struct plain { int v; }; struct state { int v; }; struct net { }; struct far { }; struct both { }; struct open { };
struct sender { }; struct closer { }; struct peer { }; struct opted { }; struct made { }; struct applied { }; struct change { };
struct tagged { using hana_tag = store; }; struct tagged_ent { using hana_tag = prod; };
// containers: with all it takes, and each with one thing less
template <typename T> struct box { using value_type = T; T* p; T* begin() const { return p; } T* end() const { return p; } T* data() const { return p; } std::size_t size() const { return 0; } };
template <typename T> struct no_data { using value_type = T; T* p; T* begin() const { return p; } T* end() const { return p; } std::size_t size() const { return 0; } };
struct no_type { char* p; char* begin() const { return p; } char* end() const { return p; } char* data() const { return p; } std::size_t size() const { return 0; } };
struct no_size { using value_type = char; char* p; char* begin() const { return p; } char* end() const { return p; } char* data() const { return p; } };
struct no_end { using value_type = char; char* p; char* begin() const { return p; } char* data() const { return p; } std::size_t size() const { return 0; } };
struct grows : box<char> { void resize(std::size_t, char) { } };
struct only_grows : no_data<char> { void resize(std::size_t, char) { } };
struct wide_grows : box<int> { void resize(std::size_t, int) { } };
struct name : std::string { using std::string::string; };
struct fixed : box<char> { }; struct fixed_ints : box<int> { };
enum class octet : unsigned char { };
struct alias_of_store : nbdl::strong_alias<store> { using nbdl::strong_alias<store>::strong_alias; };
struct alias_of_ent : nbdl::strong_alias<ent> { using nbdl::strong_alias<ent>::strong_alias; };
struct alias_of_int : nbdl::strong_alias<int> { using nbdl::strong_alias<int>::strong_alias; };
}
template <> struct std::tuple_size<w::fixed> : std::integral_constant<std::size_t, 3> { };
template <> struct std::tuple_size<w::fixed_ints> : std::integral_constant<std::size_t, 3> { };
namespace nbdl { NBDL_ENTITY(w::ent, a, b) NBDL_EMPTY(w::emp)
template <> struct send_upstream_message_impl<w::prod> { static void apply(...) { } };
template <> struct send_downstream_message_impl<w::cons> { static void apply(...) { } };
template <> struct notify_state_change_impl<w::watcher> { static void apply(...) { } };
template <> struct match_impl<w::store> { template <typename ...T> static void apply(T&& ...) { } };
template <> struct get_impl<w::state> { template <typename S, typename ...K> static constexpr int apply(S&&, K&& ...) { return 0; } };
template <> struct apply_message_impl<w::net> { static void apply(...) { } };
template <> struct apply_foreign_message_impl<w::far> { static void apply(...) { } };
template <> struct apply_message_impl<w::both> { static void apply(...) { } };
template <> struct apply_foreign_message_impl<w::both> { static void apply(...) { } };
template <> struct endpoint_open_impl<w::open> { static void apply(...) { } };
template <> struct endpoint_send_message_impl<w::sender> { static void apply(...) { } };
template <> struct endpoint_send_close_impl<w::closer> { static void apply(...) { } };
template <> struct endpoint_send_message_impl<w::peer> { static void apply(...) { } };
template <> struct endpoint_send_close_impl<w::peer> { static void apply(...) { } };
template <> struct make_delta_impl<w::made> { static void apply(...) { } };
template <> struct apply_delta_impl<w::applied> { static void apply(...) { } };
template <> struct make_delta_impl<w::change> { static void apply(...) { } };
template <> struct apply_delta_impl<w::change> { static void apply(...) { } };
template <> inline constexpr bool is_endpoint<w::opted> = true;
template <> inline constexpr bool is_string<w::name> = true;
template <> inline constexpr bool is_string<std::vector<int>> = true;
}
template <typename T> using own = T;
template <typename ...T> using tup = hana::tuple<T...>;
template <typename T> struct pointer_to { using element_type = T; };
using path2 = tup<w::key, w::key>;
using up_read = decltype(message::make_upstream_read(path2{}));
using up_create = decltype(message::make_upstream_create(message::create_path<w::key, tup<w::key>>{}, message::no_uid, w::ent{}));
using up_update = decltype(message::make_upstream_update(path2{}, message::no_uid, w::ent{}));
using up_delete = decltype(message::make_upstream_delete(path2{}, message::no_uid));
using down_read = decltype(message::make_downstream_read(path2{}, message::no_uid, w::ent{}));
using down_missing = decltype(message::make_downstream_read(path2{}, message::no_uid, nbdl::not_found{}));
using down_create = decltype(message::make_downstream_create(path2{}, message::no_uid, w::ent{}, message::no_is_confirmed));
using down_update = decltype(message::make_downstream_update(path2{}, message::no_uid, w::ent{}, true));
using down_delete = decltype(message::make_downstream_delete(path2{}, message::no_uid, message::no_is_confirmed));
// the same of T however it is referred to
#define SAME(C, ...) (nbdl::C<__VA_ARGS__> && nbdl::C<__VA_ARGS__ const> && nbdl::C<__VA_ARGS__&> && nbdl::C<__VA_ARGS__ const&> && nbdl::C<__VA_ARGS__&&> && nbdl::C<__VA_ARGS__ const&&>)
#define NEVER(C, ...) (!nbdl::C<__VA_ARGS__> && !nbdl::C<__VA_ARGS__ const> && !nbdl::C<__VA_ARGS__&> && !nbdl::C<__VA_ARGS__ const&> && !nbdl::C<__VA_ARGS__&&> && !nbdl::C<__VA_ARGS__ const&&>)
'''
CON = 'Container '
RUN = CON + 'ContiguousContainer '
BYTES = RUN + 'ContiguousByteContainer '
FIXED = 'FixedSizeContainer '
SEQ = 'BindableSequence '
KINDS = ('BindableMap BindableSequence BindableVariant Container ContiguousContainer ContiguousByteContainer FixedSizeContainer Buffer DynamicBuffer String Entity EntityContainer Path EmptyPath '
         'State Store NetworkStore Producer Consumer StateConsumer UpstreamMessage DownstreamMessage Delta Endpoint EndpointInfo StrongAlias').split()
WHOLE = 'State Store '
TYPES = {
    'int': '', 'bool': '', 'char const*': '', 'w::none': '', 'void*': '',
    'w::ent': 'BindableMap BindableSequence Entity ' + WHOLE, 'w::emp': 'BindableMap BindableSequence Entity ' + WHOLE,
    'std::string': BYTES + 'DynamicBuffer', 'nbdl::string': BYTES + 'DynamicBuffer String', 'w::name': BYTES + 'DynamicBuffer String', 'std::string_view': BYTES,
    'std::u16string': RUN, 'std::vector<char>': BYTES + 'DynamicBuffer', 'std::vector<unsigned char>': BYTES + 'DynamicBuffer', 'std::vector<int>': RUN, 'std::vector<bool>': CON,
    'std::vector<w::ent>': RUN + 'EntityContainer', 'std::list<w::ent>': CON + 'EntityContainer', 'std::vector<std::vector<w::ent>>': RUN,
    'std::list<char>': CON, 'std::deque<char>': CON, 'std::set<int>': CON, 'std::map<int, int>': CON, 'std::unordered_map<int, int>': CON + 'Store', 'std::span<char>': BYTES,
    'std::array<char, 4>': BYTES + FIXED + 'Buffer ' + WHOLE, 'std::array<signed char, 1>': BYTES + FIXED + 'Buffer ' + WHOLE, 'std::array<int, 3>': RUN + FIXED + WHOLE, 'std::array<w::octet, 2>': BYTES + FIXED + 'Buffer ' + WHOLE,
    'std::array<w::ent, 2>': RUN + FIXED + 'EntityContainer ' + WHOLE, 'nbdl::uid': BYTES + FIXED + 'Buffer',
    'w::box<char>': BYTES, 'w::box<int>': RUN, 'w::box<w::octet>': BYTES, 'w::box<w::ent>': RUN + 'EntityContainer', 'w::no_data<char>': CON, 'w::no_data<w::ent>': CON + 'EntityContainer', 'w::no_type': '', 'w::no_size': '', 'w::no_end': '',
    'w::grows': BYTES + 'DynamicBuffer', 'w::only_grows': CON, 'w::wide_grows': RUN, 'w::fixed': BYTES + FIXED + 'Buffer', 'w::fixed_ints': RUN + FIXED,
    'tup<>': SEQ + 'Path EmptyPath ' + WHOLE, 'tup<int>': SEQ + 'Path ' + WHOLE, 'path2': SEQ + 'Path ' + WHOLE, 'mpdef::list<>': SEQ + 'Path EmptyPath ' + WHOLE, 'mpdef::list<int>': SEQ + 'Path ' + WHOLE, 'mpdef::list<int, w::ent>': SEQ + 'Path ' + WHOLE,
    'hana::map<>': 'BindableMap ' + WHOLE, 'hana::type<int>': '', 'hana::type<w::ent>': '',
    'nbdl::variant<int, w::ent>': 'BindableVariant Store', 'nbdl::variant<w::none>': 'BindableVariant Store', 'nbdl::unresolved': '', 'nbdl::not_found': None,
    'nbdl::null_store': WHOLE + 'NetworkStore', 'nbdl::context_store_t<w::store>': WHOLE + 'NetworkStore', 'nbdl::map_store<w::key, w::ent>': 'Store NetworkStore',
    'w::store': 'Store', 'w::plain': '', 'w::state': WHOLE, 'w::net': 'NetworkStore', 'w::far': 'NetworkStore', 'w::both': 'NetworkStore', 'w::prod': 'Producer', 'w::cons': 'Consumer', 'w::watcher': 'StateConsumer',
    'w::tagged': 'Store', 'w::tagged_ent': 'Producer', 'w::open': 'EndpointInfo', 'w::sender': '', 'w::closer': '', 'w::peer': 'Endpoint', 'w::opted': 'Endpoint',
    'w::alias_of_store': 'Store StrongAlias', 'w::alias_of_ent': WHOLE + 'StrongAlias', 'w::alias_of_int': 'StrongAlias', 'nbdl::strong_alias<w::state>': WHOLE + 'StrongAlias', 'nbdl::strong_alias<w::none>': 'StrongAlias',
    'std::reference_wrapper<int>': '', 'std::reference_wrapper<w::store>': 'Store', 'std::reference_wrapper<w::ent>': WHOLE, 'std::reference_wrapper<w::state>': WHOLE, 'std::reference_wrapper<w::none>': '', 'std::reference_wrapper<w::net>': '',
    'nbdl::delta<w::ent>': SEQ + 'Delta', 'w::made': '', 'w::applied': '', 'w::change': 'Delta',
    **{x: 'UpstreamMessage ' + SEQ for x in ('up_read', 'up_create', 'up_update', 'up_delete')},
    **{x: 'DownstreamMessage ' + SEQ for x in ('down_read', 'down_missing', 'down_create', 'down_update', 'down_delete')},
}


def c46(chk):
    """Types of every kind, and types that lack one thing it takes, in every way a type may be referred to: what each may be used as is a fact of the type-checked program, compared with a table."""
    items = []
    for t, is_a in TYPES.items():
        if is_a is None:
            continue
        is_a = is_a.split()
        assert set(is_a) <= set(KINDS), is_a
        items.append((t, '', [(f'it is {"a" if k in is_a else "no"} {k}, however it is referred to', f'{"SAME" if k in is_a else "NEVER"}({k}, {t})') for k in KINDS]))
    items.append(('aliases', '', [
        ('an alias of a store is one', 'nbdl::StoreAlias<w::alias_of_store> && nbdl::StoreAlias<w::alias_of_ent> && !nbdl::StoreAlias<w::alias_of_int> && !nbdl::StoreAlias<w::store>'),
        ('an alias of a state is one', 'nbdl::StateAlias<w::alias_of_ent> && !nbdl::StateAlias<w::alias_of_store> && !nbdl::StateAlias<w::alias_of_int> && !nbdl::StateAlias<w::ent>')]))
    items.append(('pointers', '', [('what points to an endpoint', 'nbdl::EndpointPtr<std::unique_ptr<w::peer>> && nbdl::EndpointPtr<pointer_to<w::opted>> && !nbdl::EndpointPtr<pointer_to<w::sender>> && !nbdl::EndpointPtr<w::peer>')]))
    qual = ['int', 'int const', 'int&', 'int const&', 'int&&']
    items.append(('same', '', [(f'{a} and {b}', f'nbdl::SameAs<{a}, {b}> && !nbdl::NotSameAs<{a}, {b}>') for a in qual for b in qual]
                  + [(f'{a} and {b}', f'!nbdl::SameAs<{a}, {b}> && nbdl::NotSameAs<{a}, {b}>') for a in qual for b in ('long', 'unsigned&', 'int*', 'int const* const', 'w::none')]))
    chunks(chk, HEAD, items, 'kind')


CHECKS = {'C46': (c46, 1500)}
