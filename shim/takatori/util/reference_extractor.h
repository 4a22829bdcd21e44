#pragma once
#include <memory>
#include <utility>
#include <takatori/util/maybe_shared_ptr.h>
namespace takatori::util {
// how to get a reference out of a (smart) pointer
template <class T> struct reference_extractor {
    using reference = T&;
    static constexpr reference extract(T& v) { return v; }
};
template <class T> struct reference_extractor<T*> { using reference = T&; static constexpr reference extract(T* v) { return *v; } };
template <class T, class D> struct reference_extractor<std::unique_ptr<T, D>> { using reference = T&; static reference extract(std::unique_ptr<T, D> const& v) { return *v; } };
template <class T> struct reference_extractor<std::shared_ptr<T>> { using reference = T&; static reference extract(std::shared_ptr<T> const& v) { return *v; } };
template <class T> struct reference_extractor<maybe_shared_ptr<T>> { using reference = T&; static reference extract(maybe_shared_ptr<T> const& v) { return *v; } };
template <class T> struct reference_extractor<T const> : reference_extractor<T> {};
}
