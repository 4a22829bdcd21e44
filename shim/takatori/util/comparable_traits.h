#pragma once
#include <type_traits>
#include <utility>
namespace takatori::util {
template <class T, class U = T, class = void> struct is_equal_comparable : std::false_type {};
template <class T, class U> struct is_equal_comparable<T, U, std::void_t<decltype(std::declval<T const&>() == std::declval<U const&>())>> : std::true_type {};
template <class T, class U = T> inline constexpr bool is_equal_comparable_v = is_equal_comparable<T, U>::value;
}
