#!/bin/bash
# run in the repository's root: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -f "$out/demo"; rmdir "$out"' EXIT
clang++-18 -std=c++26 -g -O1 @FLAGS@ -Iinclude -I"$here" -I/usr/include/jsoncpp -include cstdint -include string -include algorithm \
  -DBOOST_HANA_CONFIG_ENABLE_STRING_UDL -DBOOST_ASIO_NO_TYPEID "$here/demo.cpp" -o "$out/demo" @LIBS@ || exit 1
"$out/demo"
