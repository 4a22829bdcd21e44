#pragma once
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string_view>
namespace takatori::util {
[[noreturn]] inline void fail() { throw std::domain_error("takatori::util::fail"); }
[[noreturn]] inline void fail(std::string_view m) { throw std::domain_error(std::string(m)); }
}
