#pragma once
#include <string_view>
namespace itlib {
inline bool starts_with(std::string_view s, std::string_view p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
}
