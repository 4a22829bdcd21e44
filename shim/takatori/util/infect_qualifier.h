#pragma once
#include <type_traits>
namespace takatori::util {
template <class Source> struct infect_qualifier { template <class T> using type = std::conditional_t<std::is_const_v<Source>, T const, T>; };
}
