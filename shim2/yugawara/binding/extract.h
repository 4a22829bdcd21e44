#pragma once
#include <memory>
#include <takatori/descriptor/element.h>
#include <takatori/util/optional_ptr.h>
namespace yugawara::binding {
/// what a descriptor of a declared thing refers to
template <class T>
class declared : public takatori::descriptor::object {
public:
    explicit declared(std::shared_ptr<T const> d) : declaration_(std::move(d)) {}
    [[nodiscard]] T const& declaration() const noexcept { return *declaration_; }
    [[nodiscard]] std::shared_ptr<T const> const& shared_declaration() const noexcept { return declaration_; }
    [[nodiscard]] void const* identity() const noexcept override { return declaration_.get(); }
private:
    std::shared_ptr<T const> declaration_;
};
/// a thing that is owned elsewhere
template <class T>
class referred : public takatori::descriptor::object {
public:
    explicit referred(T const& d) : declaration_(std::addressof(d)) {}
    [[nodiscard]] T const& declaration() const noexcept { return *declaration_; }
    [[nodiscard]] void const* identity() const noexcept override { return declaration_; }
private:
    T const* declaration_;
};
template <class T, class D>
takatori::util::optional_ptr<T const> extract_if(D const& d) {
    if (auto* p = dynamic_cast<declared<T> const*>(d.shared_entity().get()); p != nullptr) {
        return takatori::util::optional_ptr<T const>{std::addressof(p->declaration())};
    }
    if (auto* p = dynamic_cast<referred<T> const*>(d.shared_entity().get()); p != nullptr) {
        return takatori::util::optional_ptr<T const>{std::addressof(p->declaration())};
    }
    return {};
}
template <class T, class D>
T const& extract(D const& d) { return extract_if<T>(d).value(); }
template <class T, class D>
std::shared_ptr<T const> extract_shared(D const& d) {
    auto* p = dynamic_cast<declared<T> const*>(d.shared_entity().get());
    return p == nullptr ? nullptr : p->shared_declaration();
}
}
