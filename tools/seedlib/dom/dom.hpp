// A small document to render into, in place of a browser's: just what is needed here.
#ifndef DEMO_DOM_HPP
#define DEMO_DOM_HPP
#define NBDL_DETAIL_JS_VAL_HPP
#define EMSCRIPTEN_KEEPALIVE
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
namespace dom
{
  struct node;
  using ref = std::shared_ptr<node>;
  // a value in JavaScript: nothing, a text, or an object
  struct value { bool is_text = false; std::string text; ref obj; };
  struct node : std::enable_shared_from_this<node>
  {
    std::string kind, tag, text;      // element, text, fragment, range, classes, document, function, event
    std::map<std::string, std::string> attrs, props;
    std::set<std::string> classes;
    std::vector<ref> kids;
    node* parent = nullptr;
    std::vector<std::pair<std::string, ref>> listeners;
    ref of;                           // the element of a list of classes
    std::pair<ref, int> start, end;   // of a range
    void* receiver = nullptr;
    void const* handler = nullptr;
    void const* data = nullptr;
    bool opens = false;
    ~node() { for (auto& k : kids) k->parent = nullptr; }
    std::size_t place(node* k) { for (std::size_t i = 0; i < kids.size(); ++i) if (kids[i].get() == k) return i; std::puts("not a child"); std::exit(1); }
    void leave() { if (parent) { auto p = parent; parent = nullptr; p->kids.erase(p->kids.begin() + p->place(this)); } }
    void insert(std::size_t i, ref k)
    {
      ref before = i < kids.size() ? kids[i] : nullptr;
      std::vector<ref> all = k->kind == "fragment" ? k->kids : std::vector<ref>{k};
      for (auto& x : all)
      {
        if (x == before) continue;
        x->leave();
        kids.insert(before ? kids.begin() + place(before.get()) : kids.end(), x);
        x->parent = this;
      }
    }
    void clear() { while (!kids.empty()) { ref k = kids.back(); k->leave(); } }
    std::string html() const
    {
      std::string r;
      for (auto& k : kids)
      {
        if (k->kind == "text") { r += k->text; continue; }
        if (k->tag == "span" && k->attrs.empty() && k->classes.empty() && k->listeners.empty()) { r += k->html(); continue; }
        r += "<" + k->tag;
        for (auto& [n, v] : k->attrs) r += " " + n + "=" + v;
        for (auto& c : k->classes) r += " +" + c;
        for (auto& [n, v] : k->props) r += " ." + n + "=" + v;
        r += ">" + k->html() + "</" + k->tag + ">";
      }
      return r;
    }
  };
  inline ref make(std::string kind, std::string tag = "", std::string text = "") { auto r = std::make_shared<node>(); r->kind = kind; r->tag = tag; r->text = text; return r; }
  inline std::map<void const*, value> places;
  [[noreturn]] inline void wrong(std::string what) { std::printf("the document has no %s\n", what.c_str()); std::exit(1); }
  inline ref operator*(value const& v) { if (!v.obj) wrong("object there"); return v.obj; }
  inline value text(std::string s) { return {true, s, nullptr}; }
  inline value object(ref r) { return {false, "", r}; }
  inline value get(value const& self, std::string what)
  {
    auto n = *self;
    if (what == "classList") { auto c = make("classes"); c->of = n; return object(c); }
    if (what == "parentNode" || what == "parentElement") return object(n->parent ? n->parent->shared_from_this() : nullptr);
    if (what == "lastChild") return object(n->kids.empty() ? nullptr : n->kids.back());
    if (what == "firstChild") return object(n->kids.empty() ? nullptr : n->kids.front());
    wrong(what);
  }
  inline void set(value const& self, std::string what, value const& v)
  {
    auto n = *self;
    if (what == "innerHTML") { n->clear(); if (!v.text.empty()) n->insert(0, make("text", "", v.text)); }
    else if (n->kind == "text" && (what == "nodeValue" || what == "textContent" || what == "data")) n->text = v.text;
    else n->props[what] = v.text;
  }
  inline value call(value const& self, std::string what, std::vector<value> a)
  {
    auto n = *self;
    if (n->kind == "document")
    {
      if (what == "createElement") return object(make("element", a[0].text));
      if (what == "createTextNode") return object(make("text", "", a[0].text));
      if (what == "createDocumentFragment") return object(make("fragment"));
      if (what == "createRange") return object(make("range"));
    }
    else if (n->kind == "classes")
    {
      if (what == "add") { n->of->classes.insert(a[0].text); return {}; }
      if (what == "remove") { n->of->classes.erase(a[0].text); return {}; }
    }
    else if (n->kind == "range")
    {
      if (what == "setStartAfter") { n->start = {*a[0], 1}; return {}; }
      if (what == "setEndBefore") { n->end = {*a[0], 0}; return {}; }
      if (what == "deleteContents")
      {
        auto p = n->start.first->parent;
        if (!p || p != n->end.first->parent) wrong("such range");
        std::size_t i = p->place(n->start.first.get()) + 1, j = p->place(n->end.first.get());
        for (std::vector<ref> all(p->kids.begin() + i, p->kids.begin() + j); auto& k : all) k->leave();
        return {};
      }
    }
    else if (what == "appendChild") { n->insert(n->kids.size(), *a[0]); return a[0]; }
    else if (what == "insertBefore") { n->insert(n->place((*a[1]).get()), *a[0]); return a[0]; }
    else if (what == "replaceChild")
    {
      auto k = *a[0], old = *a[1];
      auto i = n->place(old.get());
      if (k != old) { n->insert(i, k); old->leave(); }
      return a[1];
    }
    else if (what == "removeChild") { n->place((*a[0]).get()); (*a[0])->leave(); return a[0]; }
    else if (what == "setAttribute") { n->attrs[a[0].text] = a[1].text; return {}; }
    else if (what == "removeAttribute") { n->attrs.erase(a[0].text); return {}; }
    else if (what == "addEventListener") { n->listeners.push_back({a[0].text, *a[1]}); return {}; }
    else if (what == "removeEventListener")
    {
      for (auto i = n->listeners.begin(); i != n->listeners.end(); ++i)
        if (i->first == a[0].text && i->second == a[1].obj) { n->listeners.erase(i); break; }
      return {};
    }
    wrong(what);
  }
  inline void js_code(char const*) { }
  inline void js_code(char const*, void const*) { }
  inline void js_code(char const*, void const* file, void const* click)
  {
    auto input = make("element", "input");
    input->attrs["type"] = "file";
    auto f = make("function");
    f->opens = true;
    places[file] = object(input);
    places[click] = object(f);
  }
  inline void js_code(char const*, void const* handler, void const* data, void const* receiver)
  {
    auto f = make("function");
    f->receiver = const_cast<void*>(receiver);
    f->data = data;
    places[handler] = object(f);
  }
}
#define EM_ASM(...) ::dom::js_code(#__VA_ARGS__)
#define EM_ASM_(code, ...) ::dom::js_code(#code __VA_OPT__(,) __VA_ARGS__)
namespace emscripten
{
  struct val
  {
    dom::value v;
    val(dom::value x) : v(x) { }
    explicit val(char const* s) : v(dom::text(s)) { }
    explicit val(std::string const& s) : v(dom::text(s)) { }
    template <typename T> requires std::is_arithmetic_v<T> explicit val(T x) : v(dom::text(std::to_string(x))) { }
    static val undefined() { return dom::value{}; }
    static val global(char const* n) { return dom::object(dom::make(n)); }
    static dom::value arg(val const& x) { return x.v; }
    static dom::value arg(char const* s) { return dom::text(s); }
    static dom::value arg(std::string const& s) { return dom::text(s); }
    template <typename R, typename ...A> R call(char const* name, A const& ...a) const
    { auto r = dom::call(v, name, {arg(a)...}); if constexpr (!std::is_void_v<R>) return R(r); }
    template <typename K> val operator[](K const& k) const { return dom::get(v, arg(k).text); }
    template <typename K, typename X> void set(K const& k, X const& x) { dom::set(v, arg(k).text, arg(x)); }
  };
}
namespace nbdl::detail
{
  struct js_val
  {
    static void init_registry() { }
    js_val() = default;
    js_val(js_val const&) = delete;
    ~js_val() { dom::places.erase(this); }
    void const* handle() const { return this; }
    emscripten::val as_val() const { return dom::places[this]; }
    operator emscripten::val() const { return as_val(); }
  };
}
#include <array>
#include <boost/hana.hpp>
#include <functional>
#include <string_view>
#include <nbdl/message.hpp>
#include <nbdl/notify_state_change.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/webui/detail/dom_manips.hpp>
#include <nbdl/webui/html.hpp>
#include <nbdl/webui/renderer.hpp>
namespace hana = boost::hana;
using namespace hana::literals;
using namespace nbdl::webui::html;
using namespace nbdl::ui_spec;
inline bool ok = true;
struct page
{
  dom::ref body = dom::make("element", "body");
  emscripten::val target() { return dom::object(body); }
  void is(std::string want)
  { if (body->html() != want) { std::printf("%s\ninstead of\n%s\n", body->html().c_str(), want.c_str()); ok = false; } }
  template <typename Spec, typename Store> auto show(Spec, Store& s)
  { return nbdl::webui::make_renderer<nbdl::webui::renderer<Spec>>(std::ref(s), target()); }
  // the event happens to the element with this id
  static dom::ref find(dom::ref n, std::string id)
  { if (n->attrs.count("id") && n->attrs["id"] == id) return n; for (auto& k : n->kids) if (auto r = find(k, id)) return r; return nullptr; }
  int fire(dom::ref n, std::string what, std::string data = "")
  {
    int told = 0;
    auto all = n->listeners;
    for (auto& [name, f] : all) if (name == what && f->receiver)
    { dom::places[f->data] = dom::text(data); nbdl::webui::detail::_nbdl_webui_detail_event_callback(f->receiver); ++told; }
    return told;
  }
};
template <typename R> void notify(R& r) { nbdl::notify_state_change(r, hana::type_c<void>); }
inline auto row(std::string t) { return hana::make_map(hana::make_pair("t"_s, t)); }
using rows = std::vector<decltype(row(""))>;
#endif
