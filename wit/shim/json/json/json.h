// JsonCpp as an opaque world.  A document that is read is a handle whose kind,
// size, members and elements are unknown functions of it; a document that is
// written is a tree of places whose growth is reported by events.
#ifndef WIT_JSON_H
#define WIT_JSON_H

#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>

#define JV_PURE __attribute__((const, nothrow))

extern "C"
{
  bool jv_parsed(unsigned long h) JV_PURE;
  int jv_type(unsigned long h) JV_PURE;
  bool jv_integral(unsigned long h) JV_PURE;           // a real number that is a whole one in range
  bool jv_fits(unsigned long h, int what) JV_PURE;     // the number is in range of the type
  bool jv_has(unsigned long h, char const* name) JV_PURE;
  unsigned jv_size(unsigned long h) JV_PURE;
  unsigned long jv_member(unsigned long h, char const* name) JV_PURE;
  unsigned long jv_elem(unsigned long h, unsigned i) JV_PURE;
  int jv_as_int(unsigned long h) JV_PURE;
  unsigned jv_as_uint(unsigned long h) JV_PURE;
  long jv_as_long(unsigned long h) JV_PURE;
  unsigned long jv_as_ulong(unsigned long h) JV_PURE;
  double jv_as_real(unsigned long h) JV_PURE;
  bool jv_as_bool(unsigned long h) JV_PURE;
  char const* jv_str(unsigned long h) JV_PURE;
  unsigned long jv_len(unsigned long h) JV_PURE;
  unsigned long jv_strlen(char const* s) JV_PURE;

  unsigned long jv_mk_int(long x) JV_PURE;
  unsigned long jv_mk_uint(unsigned long x) JV_PURE;
  unsigned long jv_mk_real(double x) JV_PURE;
  unsigned long jv_mk_bool(bool x) JV_PURE;
  unsigned long jv_mk_str(char const* b, unsigned long n) JV_PURE;
}

namespace wit
{
  void evt_r_node(void* node, int kind) noexcept;
  void evt_r_member(void* node, char const* name, void* child) noexcept;
  void evt_r_append(void* node, void* child) noexcept;
  unsigned long evt_r_parse(char const* b, char const* e) noexcept;
  void evt_r_option(char const* name, unsigned long v) noexcept;
  void evt_r_write(unsigned long root) noexcept;
}

namespace Json
{
  using Int = int; using UInt = unsigned; using Int64 = long; using UInt64 = unsigned long;
  using LargestInt = long; using LargestUInt = unsigned long; using ArrayIndex = unsigned;
  enum ValueType { nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue, arrayValue, objectValue };

  struct String
  {
    char const* b = nullptr; unsigned long n = 0;
    using value_type = char;
    String() = default;
    String(char const* b_, unsigned long n_) : b(b_), n(n_) { }
    String(char const* b_, char const* e_) : b(b_), n(e_ - b_) { }
    String(char const* s) : b(s), n(jv_strlen(s)) { }
    char const* begin() const { return b; } char const* end() const { return b + n; }
    char const* data() const { return b; } char const* c_str() const { return b; }
    String(std::string const& s) : b(s.data()), n(s.size()) { }
    char front() const { return *b; } char back() const { return b[n - 1]; } char const& operator[](unsigned long i) const { return b[i]; }
    char const* cbegin() const { return b; } char const* cend() const { return b + n; }
    unsigned long size() const { return n; } unsigned long length() const { return n; } bool empty() const { return n == 0; }
  };

  class Value;
  struct ValueConstIterator
  {
    unsigned long h; unsigned i;
    Value const& operator*() const;
    Value const* operator->() const { return &**this; }
    ValueConstIterator& operator++() { ++i; return *this; }
    ValueConstIterator operator++(int) { auto x = *this; ++i; return x; }
    bool operator==(ValueConstIterator const& o) const { return i == o.i; }
    bool operator!=(ValueConstIterator const& o) const { return i != o.i; }
    long operator-(ValueConstIterator const& o) const { return long(i) - long(o.i); }
  };

  class Value
  {
    [[noreturn]] static void fail() { throw std::runtime_error("Json"); }
    unsigned long number(int what) const
    {
      int t = jv_type(v);
      if (t == nullValue || t == booleanValue) return v;
      if (t != intValue && t != uintValue && t != realValue) fail();
      if (what < 4 && !jv_fits(v, what)) fail();
      return v;
    }
    unsigned long node(int kind)
    {
      if (v == 0) { void* n = ::operator new(8); wit::evt_r_node(n, kind); v = (unsigned long)n; }
      return v;
    }
  public:
    unsigned long v = 0;
    using const_iterator = ValueConstIterator;
    using iterator = ValueConstIterator;
    Value() { }
    Value(ValueType t) { if (t == arrayValue || t == objectValue) node(t); else if (t != nullValue) v = jv_mk_int(-1); }
    Value(Int x) : v(jv_mk_int(x)) { }
    Value(UInt x) : v(jv_mk_uint(x)) { }
    Value(Int64 x) : v(jv_mk_int(x)) { }
    Value(UInt64 x) : v(jv_mk_uint(x)) { }
    Value(double x) : v(jv_mk_real(x)) { }
    Value(char const* s) : v(jv_mk_str(s, jv_strlen(s))) { }
    Value(char const* b, char const* e) : v(jv_mk_str(b, e - b)) { }
    Value(String const& s) : v(jv_mk_str(s.b, s.n)) { }
    Value(bool x) : v(jv_mk_bool(x)) { }
    Value(void const*) = delete;
    Value(Value const&) = default;
    Value(Value&& o) : v(o.v) { o.v = 0; }
    Value& operator=(Value const&) = default;
    Value& operator=(Value&& o) { auto x = o.v; o.v = 0; v = x; return *this; }
    void swap(Value& o) { auto x = v; v = o.v; o.v = x; }

    // reading
    ValueType type() const { return ValueType(jv_type(v)); }
    bool isNull() const { return type() == nullValue; }
    bool isBool() const { return type() == booleanValue; }
    bool isString() const { return type() == stringValue; }
    bool isArray() const { return type() == arrayValue; }
    bool isObject() const { return type() == objectValue; }
    bool isDouble() const { auto t = type(); return t == intValue || t == uintValue || t == realValue; }
    bool isNumeric() const { return isDouble(); }
    bool isIntegral() const { auto t = type(); return t == intValue || t == uintValue || (t == realValue && jv_integral(v)); }
    bool isInt() const { auto t = type(); return (t == intValue || t == uintValue || (t == realValue && jv_integral(v))) && jv_fits(v, 0); }
    bool isUInt() const { auto t = type(); return (t == intValue || t == uintValue || (t == realValue && jv_integral(v))) && jv_fits(v, 1); }
    bool asBool() const
    {
      auto t = type();
      if (t == stringValue || t == arrayValue || t == objectValue) fail();
      return jv_as_bool(v);
    }
    Int asInt() const { return jv_as_int(number(0)); }
    UInt asUInt() const { return jv_as_uint(number(1)); }
    Int64 asInt64() const { return jv_as_long(number(2)); }
    UInt64 asUInt64() const { return jv_as_ulong(number(3)); }
    LargestInt asLargestInt() const { return jv_as_long(number(2)); }
    LargestUInt asLargestUInt() const { return jv_as_ulong(number(3)); }
    double asDouble() const { return jv_as_real(number(4)); }
    float asFloat() const { return float(jv_as_real(number(4))); }
    char const* asCString() const { if (type() != stringValue) fail(); return jv_str(v); }
    String asString() const { auto t = type(); if (t == arrayValue || t == objectValue) fail(); return String(jv_str(v), jv_len(v)); }
    bool getString(char const** b, char const** e) const
    {
      if (type() != stringValue) return false;
      *b = jv_str(v); *e = *b + jv_len(v); return true;
    }
    ArrayIndex size() const { return jv_size(v); }
    bool empty() const { return size() == 0; }
    bool isUInt64() const { auto t = type(); return (t == intValue || t == uintValue || (t == realValue && jv_integral(v))) && jv_fits(v, 3); }
    bool isInt64() const { auto t = type(); return (t == intValue || t == uintValue || (t == realValue && jv_integral(v))) && jv_fits(v, 2); }
    template <typename T> T as() const
    {
      if constexpr (__is_same(T, bool)) return asBool();
      else if constexpr (__is_same(T, Int)) return asInt();
      else if constexpr (__is_same(T, UInt)) return asUInt();
      else if constexpr (__is_same(T, Int64)) return asInt64();
      else if constexpr (__is_same(T, UInt64)) return asUInt64();
      else if constexpr (__is_same(T, double)) return asDouble();
      else if constexpr (__is_same(T, float)) return asFloat();
      else return asString();
    }
    bool isValidIndex(ArrayIndex i) const { return i < size(); }
    explicit operator bool() const { return !isNull(); }
    bool isMember(String const& name) const { return isMember(name.b); }
    Value const& operator[](String const& name) const { return (*this)[name.b]; }
    Value& operator[](String const& name) { return (*this)[name.b]; }
    bool isMember(char const* name) const { return type() == objectValue && jv_has(v, name); }
    Value const& operator[](char const* name) const
    {
      if (type() != nullValue && type() != objectValue) fail();
      Value* c = new Value(); c->v = jv_member(v, name); return *c;
    }
    Value const& operator[](ArrayIndex i) const
    {
      if (type() != nullValue && type() != arrayValue) fail();
      Value* c = new Value(); c->v = jv_elem(v, i); return *c;
    }
    Value const& operator[](int i) const { return (*this)[ArrayIndex(i)]; }
    ValueConstIterator begin() const { return {v, 0}; }
    ValueConstIterator end() const { return {v, size()}; }

    // writing
    Value& operator[](char const* name)
    {
      node(objectValue);
      Value* c = new Value(); wit::evt_r_member((void*)v, name, c); return *c;
    }
    Value& append(Value const& x)
    {
      node(arrayValue);
      Value* c = new Value(x); wit::evt_r_append((void*)v, c); return *c;
    }
    Value& append(Value&& x)
    {
      node(arrayValue);
      Value* c = new Value(static_cast<Value&&>(x)); wit::evt_r_append((void*)v, c); return *c;
    }
  };

  inline Value const& ValueConstIterator::operator*() const { Value* c = new Value(); c->v = jv_elem(h, i); return *c; }

  struct CharReader
  {
    bool parse(char const* b, char const* e, Value* root, void*) { root->v = wit::evt_r_parse(b, e); return jv_parsed(root->v); }
  };
  struct CharReaderBuilder
  {
    struct option { char const* n; option& operator=(Value const& x) { wit::evt_r_option(n, x.v); return *this; } };
    option operator[](char const* n) { return {n}; }
    CharReader* newCharReader() const { return new CharReader(); }
  };
  struct StreamWriter
  {
    int write(Value const& root, void*) { wit::evt_r_write(root.v); return 0; }
  };
  struct StreamWriterBuilder
  {
    struct option { char const* n; option& operator=(Value const& x) { wit::evt_r_option(n, x.v); return *this; } };
    option operator[](char const* n) { return {n}; }
    StreamWriter* newStreamWriter() const { return new StreamWriter(); }
  };
  inline std::string writeString(StreamWriterBuilder const&, Value const& root) { wit::evt_r_write(root.v); return {}; }
}

#endif
