// Stand-in for the entry points of emscripten: code in JavaScript is an event, with what it is given.
#pragma once
#define EMSCRIPTEN_KEEPALIVE
namespace wit
{
  void evt_r_js_input(void const* file_input, void const* click_handler) noexcept;
  void evt_r_js_handler(void const* handler, void const* event_data, void const* receiver) noexcept;
  // who receives events at present
  struct receiver_of { void const* handler; void const* event_data; void* receiver; };
  inline receiver_of receivers[8];
  inline int receiver_count;
  inline void js_code(char const*) { }
  inline void js_code(char const*, void const* f, void const* c) { evt_r_js_input(f, c); }
  inline void js_code(char const*, void const* h, void const* d, void const* r)
  { receivers[receiver_count++] = {h, d, const_cast<void*>(r)}; evt_r_js_handler(h, d, r); }
  // the address of the page (without its prefix); who is told when the browser goes to another
  inline char address[48];
  inline u64 address_size;
  inline void const* popstate_handler;
  void evt_r_js_popstate(void const* handler) noexcept;
  void evt_r_js_push(u64 size) noexcept;
  void evt_r_js_push_ch(u64 i, unsigned char c) noexcept;
  inline void js_code(char const*, void const* h) { popstate_handler = h; evt_r_js_popstate(h); }
  inline void js_code(char const*, char const* url)
  {
    u64 n = 0;
    for (; n < sizeof(address) && url[n]; ++n) address[n] = url[n];
    address_size = n;
    evt_r_js_push(n);
    for (u64 i = 0; i < n; ++i) evt_r_js_push_ch(i, address[i]);
  }
  inline void js_code(char const*, char* out) { for (u64 i = 0; i < address_size; ++i) out[i] = address[i]; out[address_size] = 0; }
  inline int js_int(char const*, int) { return static_cast<int>(address_size); }
}
#define EM_ASM_INT(code, ...) ::wit::js_int(#code __VA_OPT__(,) __VA_ARGS__)
#define EM_ASM(...) ::wit::js_code(#__VA_ARGS__)
#define EM_ASM_(code, ...) ::wit::js_code(#code __VA_OPT__(,) __VA_ARGS__)
