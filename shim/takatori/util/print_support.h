#pragma once
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class T, class = void> struct is_printable : std::false_type {};
template <class T> struct is_printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T const&>())>> : std::true_type {};
template <class T> struct print_support {
    explicit print_support(T const& v) : v_(&v) {}
    friend std::ostream& operator<<(std::ostream& o, print_support const& s) {
        if constexpr (is_printable<T>::value) return o << *s.v_;
        else return o << "(value)";
    }
    T const* v_;
};
}
