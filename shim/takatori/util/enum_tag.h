#pragma once
#include <functional>
#include <type_traits>
#include <utility>
namespace takatori::util {
template <auto Kind> struct enum_tag_t { explicit enum_tag_t() = default; static constexpr auto value = Kind; };
template <auto Kind> inline constexpr enum_tag_t<Kind> enum_tag{};
template <auto Kind, class Callback, class... Args> constexpr decltype(auto) enum_tag_callback(Callback&& cb, Args&&... args) {
    return std::invoke(std::forward<Callback>(cb), enum_tag<Kind>, std::forward<Args>(args)...);
}
}
