#pragma once
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... A>
std::string Substitute(std::string_view f, const A&... a) {
  const std::string args[] = {StrCat(a)..., ""};
  std::string r;
  for (std::size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) { ++i; if (f[i] == '$') { r += '$'; } else { r += args[f[i] - '0']; } }
    else { r += f[i]; }
  }
  return r;
}
}
