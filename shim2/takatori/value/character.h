#pragma once
#include <takatori/value/data.h>
namespace takatori::value {
using character = simple_value<value_kind::character, std::string, std::string_view>;
/// the longest prefix of at most n octets which does not split a UTF-8 character
inline std::string_view truncate_utf8(std::string_view s, std::size_t n) {
    if (s.size() <= n) return s;
    auto e = n;
    while (e > 0 && (static_cast<unsigned char>(s[e]) & 0xC0U) == 0x80U) --e;
    return s.substr(0, e);
}
}
