#pragma once
#include <memory>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <takatori/util/optional_ptr.h>
namespace takatori::util {
namespace details {
template <class To, class From> using copy_const = std::conditional_t<std::is_const_v<From>, To const, To>;
}
template <class To, class From> details::copy_const<To, From>* downcast(From* p) { return dynamic_cast<details::copy_const<To, From>*>(p); }
template <class To, class From, class = std::enable_if_t<!std::is_pointer_v<From>>> details::copy_const<To, From>& downcast(From& p) { return dynamic_cast<details::copy_const<To, From>&>(p); }
// the stand-in checks what the real one only asserts in debug builds
template <class To, class From> details::copy_const<To, From>* unsafe_downcast(From* p) {
    if (p != nullptr && std::is_polymorphic_v<From> && dynamic_cast<details::copy_const<To, From>*>(p) == nullptr) throw std::bad_cast();
    return static_cast<details::copy_const<To, From>*>(p);
}
template <class To, class From, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<From>>>>
auto& unsafe_downcast(From&& p) {
    using F = std::remove_reference_t<From>;
    return static_cast<details::copy_const<std::remove_reference_t<To>, F>&>(p);
}
template <class To, class From> std::unique_ptr<To> unsafe_downcast(std::unique_ptr<From>&& p) { return std::unique_ptr<To>(static_cast<To*>(p.release())); }
template <class To, class From> std::shared_ptr<To> unsafe_downcast(std::shared_ptr<From> p) { return std::static_pointer_cast<To>(std::move(p)); }
}
