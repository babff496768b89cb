// Stand-in for nbdl::detail::js_val (its handle is an address in 32 bits): a place for a value in JavaScript, known by its address.
#ifndef NBDL_DETAIL_JS_VAL_HPP
#define NBDL_DETAIL_JS_VAL_HPP
#include <emscripten.h>
#include <emscripten/val.h>
namespace wit
{
  u64 evt_r_js_val_get(void const*) noexcept;
  void evt_r_js_val_gone(void const*) noexcept;
}
namespace nbdl::detail
{
  struct js_val
  {
    static void init_registry() { }
    js_val() = default;
    js_val(js_val const&) = delete;
    ~js_val() { for (auto& r : wit::receivers) if (r.handler == this) r.handler = nullptr; wit::evt_r_js_val_gone(this); }
    void const* handle() const { return this; }
    emscripten::val as_val() const { return emscripten::val(emscripten::val::raw{wit::evt_r_js_val_get(this)}); }
    operator emscripten::val() const { return as_val(); }
  };
}
#endif
