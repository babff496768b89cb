// a string is where its characters are and how many there are
#ifndef NBDL_BIND_STRING_HPP
#define NBDL_BIND_STRING_HPP

#include <nbdl/concept/String.hpp>
#include <json/json.h>
#include <string>

namespace nbdl
{
  struct string : Json::String
  {
    using Json::String::String;
    string() = default;
    string(Json::String const& s) : Json::String(s) { }
    void resize(unsigned long, char = 0) { b = nullptr; }
    char* data() { return const_cast<char*>(b); }
    char const* data() const { return b; }
    string& assign(char const* f, char const* l) { b = f; n = l - f; return *this; }
    string& assign(char const* f, unsigned long k) { b = f; n = k; return *this; }
  };

  template <>
  inline constexpr bool is_string<string> = true;
}

#endif
