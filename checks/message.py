"""Messages: accessors, conversions, direction concepts, generated api."""
import re
from sa import core, terms as T
from sa.terms import C

ABS = C(-1, 64)
K1, K2, U, P, Q, CF = [('arg', i) for i in range(6)]
NAMES = ['key1', 'key2', 'uid', 'payload', 'private', 'confirmed']
CONFZ = T.cast('zext', 1, 64, CF)

# name -> (chan, act, path kind, uid?, payload?, private?, confirmed?)
UP, DOWN = 1, 2
ACT = {'c': 1, 'r': 2, 'u': 4, 'd': 8}


def spec(name):
    head, _, opts = name.partition('_')
    chan = UP if head[0] == 'u' else DOWN
    act = ACT[head[1]]
    pk = {'': 0, 'c': 1, 'e': 2}[head[2:]]
    return dict(chan=chan, act=act, pk=pk, uid='u' in opts, payload=act in (1, 2, 4) and not (chan == UP and act == 2),
                private='q' in opts, conf='c' if chan == DOWN and 'c' in opts else None)


def conf_term(c):
    return {'c': CONFZ, 't': C(1, 64), None: ABS}[c]


def msg_names(mod):
    return sorted(f[4:] for f in mod.fns if f.startswith('wit_') and not f.startswith(('wit_cv', 'wit_mv_', 'wit_lv_', 'wit_rd_')))


def want(s, private=True):
    """expected evt_msg targs, args"""
    return ((s['chan'], s['act'], int(s['uid']), int(s['conf'] is not None), s['pk']),
            (K1, K2 if s['pk'] == 0 else ABS, U if s['uid'] else ABS, P if s['payload'] else ABS, conf_term(s['conf']),
             Q if s['private'] and private else ABS))


def fields(s):
    out = [(0, K1)]
    if s['pk'] == 0:
        out.append((1, K2))
    if s['uid']:
        out.append((2, U))
    if s['payload']:
        out.append((3, P))
    if s['private']:
        out.append((4, Q))
    if s['conf']:
        out.append((5, conf_term(s['conf'])))
    return out


def only_trace(chk, mod, fn):
    ts = chk.explore(mod, fn).traces
    chk.ob(len(ts) >= 1 and all(t.kind == 'ret' for t in ts), f'{fn}: completes', str([t.kind for t in ts]))
    return ts


def tell(chk, t, fn, s, private=True, serial=True):
    ms = t.evs('evt_msg')
    targs, args = want(s, private)
    if not chk.ob(len(ms) == 1, f'{fn}: message described', str(len(ms)), trace=t, names=NAMES):
        return
    e = ms[0]
    for what, i, in (('direction', 0), ('action', 1), ('presence of the uid', 2), ('path form', 4)):
        chk.ob(e.targs[i] == targs[i], f'{fn}: {what}', f'{e.targs[i]} instead of {targs[i]}', loc=e.loc, trace=t, names=NAMES)
    if serial:
        chk.ob(e.targs[3] == targs[3], f'{fn}: presence of the confirmation', f'{e.targs[3]} instead of {targs[3]}', loc=e.loc)
    for i, what in enumerate(('first key', 'last key', 'uid', 'payload', 'confirmation', 'private payload')):
        if not serial and i > 3:
            continue
        chk.ob(e.args[i] == args[i], f'{fn}: the {what} is what the message was made with',
               f'{T.show(e.args[i], NAMES)} instead of {T.show(args[i], NAMES)}', loc=e.loc, trace=t, names=NAMES)
    if serial:
        fs = [(x.targs[0], x.args[0]) for x in t.evs('evt_field')]
        w = fields(s if private else dict(s, private=False))
        chk.ob(sorted(fs, key=repr) == sorted(w, key=repr), f'{fn}: the parts exposed for serialization are exactly the content of the message',
               f'{[(a, T.show(b, NAMES)) for a, b in fs]} instead of {[(a, T.show(b, NAMES)) for a, b in w]}', trace=t, names=NAMES)
    ns = t.evs('evt_norm')
    # the path names an entity if the key is there or follows from the uid (or has no content)
    norm = (K1, K2) if s['pk'] == 0 else (K1, U) if s['pk'] == 1 and s['uid'] else (K1, ABS) if s['pk'] == 2 else None
    chk.ob((len(ns) == 1) == (norm is not None), f'{fn}: whether the message determines a full path', f'{len(ns)} instead of {norm is not None}', trace=t, names=NAMES)
    if ns and norm:
        chk.ob(ns[0].args == norm, f'{fn}: the full path', f'{[T.show(a, NAMES) for a in ns[0].args]} instead of {[T.show(a, NAMES) for a in norm]}',
               loc=ns[0].loc, trace=t, names=NAMES)


def c07(chk):
    """For every message kind (27 constructions) and for const and moved-from access, the term each accessor returns is the term the
    message was constructed with (data provenance on the flow graph); traits and the serialized parts match; checked on all paths."""
    mod = core.compile_ir('message')
    names = msg_names(mod)
    if len(names) < 27:
        raise core.AnalysisError('message witnesses vanished')
    for n in names:
        s = spec(n)
        for t in only_trace(chk, mod, 'wit_' + n):
            tell(chk, t, 'wit_' + n, s)
            if n == 'ucc_uqp':
                chk.sample(f'{n}: {t.show(NAMES)}')
        for t in only_trace(chk, mod, 'wit_mv_' + n):
            tell(chk, t, 'wit_mv_' + n, dict(s, private=False, conf=None), serial=False)
        for t in only_trace(chk, mod, 'wit_rd_' + n):
            tell(chk, t, 'wit_rd_' + n, s)
    lv = sorted(f for f in mod.fns if f.startswith('wit_lv_'))
    if len(lv) < 20:
        raise core.AnalysisError('witnesses of messages made of things left in place vanished')
    for fn in lv:
        s = spec(fn[7:])
        for t in only_trace(chk, mod, fn):
            at = [i for i, e in enumerate(t.events) if e.name == 'evt_left']
            if not chk.ob(len(at) == 1, f'{fn}: the message is made', t.show(NAMES), trace=t, names=NAMES):
                continue
            fs = [(x.targs[0], x.args[0]) for x in t.events[at[0]:] if x.name == 'evt_field']
            chk.ob(fs == fields(s), f'{fn}: what a message is made from, left in place, stays as it is',
                   f'{[(a, T.show(b, NAMES)) for a, b in fs]} instead of {[(a, T.show(b, NAMES)) for a, b in fields(s)]}', trace=t, names=NAMES)
            fs = [(x.targs[0], x.args[0]) for x in t.events[:at[0]] if x.name == 'evt_field']
            chk.ob(sorted(fs, key=repr) == sorted(fields(s), key=repr), f'{fn}: the message holds exactly what it was made from',
                   f'{[(a, T.show(b, NAMES)) for a, b in fs]}', trace=t, names=NAMES)
    items = []
    for m in ('uc', 'ur', 'uu', 'ud', 'dc', 'dr', 'du', 'dd'):
        ch = {'u': 'upstream', 'd': 'downstream'}[m[0]]
        ac = {'c': 'create', 'r': 'read', 'u': 'update', 'd': 'delete_'}[m[1]]
        items.append((f'channel of {m}', f'std::is_same_v<decltype(w::message::get_channel(std::declval<w::{m} const&>())), w::message::channel::{ch}>'))
        items.append((f'action of {m}', f'std::is_same_v<decltype(w::message::get_action(std::declval<w::{m} const&>())), w::message::action::{ac}>'))
        items.append((f'path type of {m}', f'std::is_same_v<decltype(w::message::get_path_type(std::declval<w::{m} const&>())), w::hana::type<w::path>>'))
        for k, n in (('create', 'c'), ('read', 'r'), ('update', 'u'), ('delete', 'd')):
            for q in ('', ' const&', '&&'):
                items.append((f'{m}{q} is a {k}: {m[1] == n}', f'w::message::is_{k}<w::{m}{q}> == {int(m[1] == n)}'))
    for c in ('w::ucc', 'w::ucn', 'w::dcc'):
        items.append((f'path type of {c}, made for a key to come', f'std::is_same_v<decltype(w::message::get_path_type(std::declval<{c} const&>())), w::hana::type<w::path>>'))
    items.append(('a create with neither key nor uid needs a key for its reply', 'w::message::requires_key_for_downstream<w::ucn>'))
    items.append(('a create with a uid needs no key for its reply', '!w::message::requires_key_for_downstream<w::ucc>'))
    items.append(('a create with a full path needs no key for its reply', '!w::message::requires_key_for_downstream<w::uc>'))
    core.facts(chk, GATES + r"""
namespace w
{
  struct k1 : wit::val<1> { k1(wit::val<2>); };
  using cp = message::create_path<wit::val<1>, hana::tuple<wit::val<0>>>;
  using path_ = path;
  using ucc = message::upstream_create<message::create_path<wit::val<1>, hana::tuple<wit::val<0>>>, wit::val<1>, p, n>;
  using ucn = message::upstream_create<cp, n, p, n>;
  using dcc = message::downstream_create<cp, wit::val<1>, p, n>;
}
""", items, name='kinds')


def c08(chk):
    """For every upstream message kind and each conversion, on lvalues and on rvalues whose moved-from parts are poisoned: the reply is of the
    matching kind and carries path, uid, payload and confirmation of its origin; the private payload flows into no part of it."""
    mod = core.compile_ir('message')
    fns = sorted(f for f in mod.fns if f.startswith(('wit_cv_', 'wit_cvm_')))
    if len(fns) < 64:
        raise core.AnalysisError('conversion witnesses vanished')
    for fn in fns:
        base, _, how = fn.split('_', 2)[2].rpartition('_')
        s = dict(spec(base))
        s['chan'] = DOWN
        s['private'] = False
        s['conf'] = {'c': 'c', 'n': None, 't': 't', 'k': None, 'kt': 't', 'r': None}[how]
        if how in ('k', 'kt'):
            s['pk'] = 0
        if how == 'r':
            s['payload'] = True
        for t in only_trace(chk, mod, fn):
            tell(chk, t, fn, s)
            leak = [e for e in t.events if any(Q in T.subterms(a) for a in e.args if isinstance(a, tuple))]
            chk.ob(not leak, f'{fn}: the private payload does not leave with the reply', leak[0].show(NAMES) if leak else '',
                   loc=leak[0].loc if leak else None, trace=t, names=NAMES)
            if how == 'kt':
                chk.sample(f'{fn}: {t.show(NAMES)}')
    for fn in sorted(f for f in mod.fns if f.startswith('wit_cvl_')):
        s = spec(fn.split('_', 2)[2].rpartition('_')[0])
        for t in only_trace(chk, mod, fn):
            tell(chk, t, fn, s)


GATES = r'''
#include "wit.hpp"
#include <nbdl/message.hpp>
#include <nbdl/send_upstream_message.hpp>
#include <nbdl/send_downstream_message.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/apply_foreign_message.hpp>
#include <nbdl/producer_init.hpp>
#include <nbdl/consumer_init.hpp>
#include <nbdl/concept/Producer.hpp>
#include <nbdl/concept/Consumer.hpp>
#include <nbdl/concept/StateConsumer.hpp>
namespace w
{
  namespace hana = boost::hana; namespace message = nbdl::message;
  template <int i> struct tag { };
  template <int i> struct actor { using hana_tag = tag<i>; };
  using prod = actor<0>; using cons = actor<1>; using scons = actor<2>; using nobody = actor<3>; using both = actor<4>;
  using path = hana::tuple<wit::val<0>, wit::val<1>>; using u = wit::val<2>; using p = wit::val<3>; using n = message::no_impl;
  using uc = message::upstream_create<path, u, p, n>; using ur = message::upstream_read<path, u>;
  using uu = message::upstream_update<path, u, p>; using ud = message::upstream_delete<path, u>;
  using dc = message::downstream_create<path, u, p, n>; using dr = message::downstream_read<path, u, p>;
  using du = message::downstream_update<path, u, p, n>; using dd = message::downstream_delete<path, u, n>;
}
namespace nbdl
{
  template <> struct send_upstream_message_impl<w::tag<0>> { template <typename A, typename M> static constexpr void apply(A&&, M&&) { } };
  template <> struct send_downstream_message_impl<w::tag<1>> { template <typename A, typename M> static constexpr void apply(A&&, M&&) { } };
  template <> struct send_upstream_message_impl<w::tag<4>> { template <typename A, typename M> static constexpr void apply(A&&, M&&) { } };
  template <> struct send_downstream_message_impl<w::tag<4>> { template <typename A, typename M> static constexpr void apply(A&&, M&&) { } };
  template <> struct notify_state_change_impl<w::tag<2>> { template <typename A, typename M> static constexpr void apply(A&&, M&&) { } };
}
namespace w
{
  template <typename A, typename M> concept up = requires(A a, M m) { nbdl::send_upstream_message(a, m); };
  template <typename A, typename M> concept upm = requires(A a, M m) { nbdl::send_upstream_message(std::move(a), std::move(m)); };
  template <typename A, typename M> concept upc = requires(A const& a, M const& m) { nbdl::send_upstream_message(a, m); };
  template <typename A, typename M> concept down = requires(A a, M m) { nbdl::send_downstream_message(a, m); };
  template <typename A, typename M> concept downm = requires(A a, M m) { nbdl::send_downstream_message(std::move(a), std::move(m)); };
  template <typename A, typename M> concept downc = requires(A const& a, M const& m) { nbdl::send_downstream_message(a, m); };
  template <typename A, typename M> concept note = requires(A a, M m) { nbdl::notify_state_change(a, m); };
}
'''


def c09(chk):
    """Compile-fail witnesses: for every actor role x message kind x value category, the send operations are (well-/ill-)formed exactly when
    role and direction fit. Decided by overload resolution against the concepts; nothing is executed."""
    ups, downs = ['uc', 'ur', 'uu', 'ud'], ['dc', 'dr', 'du', 'dd']
    items = []
    for a, (pr, co, st) in {'prod': (1, 0, 0), 'cons': (0, 1, 0), 'scons': (0, 0, 1), 'nobody': (0, 0, 0), 'both': (1, 1, 0)}.items():
        for m in ups + downs:
            for v in ('', 'm', 'c'):
                ok = pr and m in ups
                items.append((f'sending {m} upstream to {a} (form {v}) is {"accepted" if ok else "rejected"}',
                              ('' if ok else '!') + f'w::up{v}<w::{a}, w::{m}>'))
                ok = co and m in downs
                items.append((f'sending {m} downstream to {a} (form {v}) is {"accepted" if ok else "rejected"}',
                              ('' if ok else '!') + f'w::down{v}<w::{a}, w::{m}>'))
        for x in ('int', 'w::path', 'w::nobody'):
            items.append((f'{a} is not sent a {x} upstream', f'!w::up<w::{a}, {x}>'))
            items.append((f'{a} is not sent a {x} downstream', f'!w::down<w::{a}, {x}>'))
        items.append((f'role of {a}: producer', f'nbdl::Producer<w::{a}> == {pr}'))
        items.append((f'role of {a}: consumer', f'nbdl::Consumer<w::{a}> == {co}'))
        items.append((f'role of {a}: state consumer', f'nbdl::StateConsumer<w::{a}> == {st}'))
        items.append((f'notifying {a} of a state change is {"accepted" if st else "rejected"}', ('' if st else '!') + f'w::note<w::{a}, w::path>'))
    for m in ups + downs:
        for q in ('', ' const', '&', ' const&', '&&'):
            items.append((f'{m}{q} is an upstream message: {m in ups}', f'nbdl::UpstreamMessage<w::{m}{q}> == {int(m in ups)}'))
            items.append((f'{m}{q} is a downstream message: {m in downs}', f'nbdl::DownstreamMessage<w::{m}{q}> == {int(m in downs)}'))
    for x in ('int', 'w::path', 'w::prod'):
        items.append((f'{x} is no message', f'!nbdl::UpstreamMessage<{x}> && !nbdl::DownstreamMessage<{x}>'))
    core.facts(chk, GATES, items, name='gates')


API = r'''
#include "wit.hpp"
#include <nbdl/message_api.hpp>
#include <nbdl/make_def.hpp>
#include <nbdl/def/directives.hpp>
#include <boost/mp11.hpp>
namespace w
{
  namespace hana = boost::hana; namespace message = nbdl::message; namespace mp11 = boost::mp11;
  template <int i> struct root { int x; }; template <int i> struct entity { int x; };
  template <typename T> struct key { int x; };
  struct def { };
  template <int i> struct ptag { };
  struct only { };
}
namespace w_def
{
  namespace hana = boost::hana;
  using namespace boost::hana::literals;
  using namespace nbdl_def;
  using namespace w;
  template <int r, int e, typename A>
  constexpr auto point(A a)
  {
    return AccessPoint(Name(hana::type_c<void>), Entity<w::root<r>>, PathKey<w::key<w::root<r>>>,
        AccessPoint(Name(hana::type_c<void>), Entity<w::entity<e>>, PathKey<w::key<w::entity<e>>>, a));
  }
  constexpr auto make()
  {
    return Context(
      Producers(
        Producer(Name("a"_s), Type<w::ptag<0>>, AccessPoints(
          point<0, 1>(Actions(Create(), Read(), Update(), Delete())),
          point<0, 2>(Actions(Read())))),
        Producer(Name("b"_s), Type<w::ptag<1>>, AccessPoints(
          point<1, 3>(Actions(Create(), Delete())),
          point<1, 4>(Actions(Update())))),
        // paths of one key, keys of which there is but one
        Producer(Name("d"_s), Type<w::ptag<3>>, AccessPoints(
          AccessPoint(Entity<w::entity<5>>, PathKey<w::key<w::entity<5>>>, Actions(Create(), Update())),
          AccessPoint(Entity<w::entity<6>>, PathKey<w::only>, Actions(Create(), Delete()),
            AccessPoint(Entity<w::entity<7>>, PathKey<w::key<w::entity<7>>>, Actions(Create()))),
          AccessPoint(PathKey<w::key<w::entity<8>>>, AccessPoint(Entity<w::entity<8>>, PathKey<w::only>, Actions(Create())))))),
      Consumers(Consumer(Name("c"_s), Type<w::ptag<2>>)));
  }
}
namespace nbdl
{
  template <> struct make_def_impl<w::def> { static constexpr auto apply() { return w_def::make(); } };
}
namespace w
{
  using meta = typename nbdl_def::builder::make_context_meta_t<def>::message_api_meta;
  using up = meta::upstream_types; using down = meta::downstream_types;
  using api = nbdl::message_api<def, wit::val<9>>;
  using uvar = api::upstream_variant_; using dvar = api::downstream_variant_;
  template <int r, int e> using path = hana::tuple<key<root<r>>, key<entity<e>>>;
  template <int r, int e> using cpath = message::create_path<key<entity<e>>, hana::tuple<key<root<r>>>>;
  using n = message::no_impl;
  template <int r, int e> using uc = message::upstream_create<cpath<r, e>, n, entity<e>, n>;
  template <int r, int e> using ur = message::upstream_read<path<r, e>, n>;
  template <int r, int e> using uu = message::upstream_update<path<r, e>, n, entity<e>>;
  template <int r, int e> using ud = message::upstream_delete<path<r, e>, n>;
  template <int r, int e> using dc = message::downstream_create<path<r, e>, n, entity<e>, n>;
  template <int r, int e> using dr = message::downstream_read<path<r, e>, n, entity<e>>;
  template <int r, int e> using dn = message::downstream_read<path<r, e>, n, nbdl::not_found>;
  template <int r, int e> using du = message::downstream_update<path<r, e>, n, entity<e>, n>;
  template <int r, int e> using dd = message::downstream_delete<path<r, e>, n, n>;
  template <typename L, typename T> constexpr bool once = mp11::mp_count<L, T>::value == 1;
  template <typename L, typename T> constexpr bool never = mp11::mp_count<L, T>::value == 0;
  template <typename V> struct as_list; template <typename ...T> struct as_list<nbdl::variant<T...>> { using type = mp11::mp_list<T...>; };
  using uvl = as_list<uvar>::type; using dvl = as_list<dvar>::type;
}
'''


def c10(chk):
    """Type-level: the variants generated from a definition contain each message kind of each declared action of each access point exactly
    once, the system message, and nothing else."""
    pts = {(0, 1): 'crud', (0, 2): 'r', (1, 3): 'cd', (1, 4): 'u'}
    items = []
    nu = nd = 1
    for (r, e), acts in pts.items():
        for a in 'crud':
            on = a in acts
            kind = {'c': (['uc'], ['dc']), 'r': (['ur'], ['dr', 'dn']), 'u': (['uu'], ['du']), 'd': (['ud'], ['dd'])}[a]
            word = {'c': 'create', 'r': 'read', 'u': 'update', 'd': 'delete'}[a]
            for k in kind[0]:
                nu += on
                for l in ('w::up', 'w::uvl'):
                    items.append((f'{word} of path {r}{e} is {"" if on else "not "}an upstream message ({k} in {l})',
                                  f'w::{"once" if on else "never"}<{l}, w::{k}<{r}, {e}>>'))
                items.append((f'{k} of path {r}{e} is not sent downstream', f'w::never<w::dvl, w::{k}<{r}, {e}>>'))
            for k in kind[1]:
                nd += on
                for l in ('w::down', 'w::dvl'):
                    items.append((f'{word} of path {r}{e} is {"" if on else "not "}a downstream message ({k} in {l})',
                                  f'w::{"once" if on else "never"}<{l}, w::{k}<{r}, {e}>>'))
                items.append((f'{k} of path {r}{e} is not sent upstream', f'w::never<w::uvl, w::{k}<{r}, {e}>>'))
    more = [('5', 'hana::tuple<key<entity<5>>>', 'message::create_path<key<entity<5>>, hana::tuple<>>', 'cu', 'the only key of a path'),
            ('6', 'hana::tuple<only>', 'hana::tuple<only>', 'cd', 'a key of which there is but one'),
            ('7', 'hana::tuple<only, key<entity<7>>>', 'message::create_path<key<entity<7>>, hana::tuple<only>>', 'c', 'a key under one of which there is but one'),
            ('8', 'hana::tuple<key<entity<8>>, only>', 'hana::tuple<key<entity<8>>, only>', 'c', 'a key of which there is but one, under another')]
    for e, path, cpath, acts, what in more:
        path, cpath = (re.sub(r'\b(key|entity|only)\b', r'w::\1', x).replace('hana::', 'boost::hana::').replace('message::', 'nbdl::message::') for x in (path, cpath))
        kinds = {'c': (f'upstream_create<{cpath}, w::n, w::entity<{e}>, w::n>', f'downstream_create<{path}, w::n, w::entity<{e}>, w::n>'),
                 'u': (f'upstream_update<{path}, w::n, w::entity<{e}>>', f'downstream_update<{path}, w::n, w::entity<{e}>, w::n>'),
                 'd': (f'upstream_delete<{path}, w::n>', f'downstream_delete<{path}, w::n, w::n>')}
        for a, (u, d) in kinds.items():
            on = 'once' if a in acts else 'never'
            nu += on == 'once'
            nd += on == 'once'
            for l, m in (('w::up', u), ('w::uvl', u), ('w::down', d), ('w::dvl', d)):
                items.append((f'{a} of {what} is {"" if on == "once" else "not "}in {l}', f'w::{on}<{l}, nbdl::message::{m}>'))
    items.append(('no undeclared upstream message', f'boost::mp11::mp_size<w::up>::value == {nu - 1}'))
    items.append(('no undeclared downstream message', f'boost::mp11::mp_size<w::down>::value == {nd - 1}'))
    items.append(('upstream variant holds the system message', 'w::once<w::uvl, wit::val<9>>'))
    items.append(('downstream variant holds the system message', 'w::once<w::dvl, wit::val<9>>'))
    items.append(('the api variants derive from the generated ones',
                  'std::is_base_of_v<w::uvar, w::api::upstream_variant> && std::is_base_of_v<w::dvar, w::api::downstream_variant>'))
    core.facts(chk, API, items, name='api')


CHECKS = {'C07': (c07, 500), 'C08': (c08, 700), 'C09': (c09, 300), 'C10': (c10, 100)}
