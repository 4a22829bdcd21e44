#pragma once
#include <functional>
#include <memory>
#include <ostream>
#include <takatori/util/optional_ptr.h>
// Stand-in for takatori's descriptors: a shared reference to some object, equal when they name the same thing.
namespace takatori::descriptor {
enum class descriptor_kind { variable, relation, function, aggregate_function, schema, storage, declared_type };
class object {
public:
    virtual ~object() = default;
    /// what the object stands for: two objects of the same identity are the same thing
    [[nodiscard]] virtual void const* identity() const noexcept { return this; }
};
template <descriptor_kind K>
class element {
public:
    static constexpr descriptor_kind tag = K;
    using entity_type = object;
    /// a lightweight name of a descriptor
    class reference_type {
    public:
        explicit reference_type(void const* p) : p_(p) {}
        friend bool operator==(reference_type a, reference_type b) noexcept { return a.p_ == b.p_; }
        friend bool operator!=(reference_type a, reference_type b) noexcept { return a.p_ != b.p_; }
        void const* p_;
    };
    element() = default;
    explicit element(std::shared_ptr<entity_type const> e) : e_(std::move(e)) {}
    [[nodiscard]] entity_type const& entity() const noexcept { return *e_; }
    [[nodiscard]] util::optional_ptr<entity_type const> optional_entity() const noexcept {
        return util::optional_ptr<entity_type const>{e_.get()};
    }
    [[nodiscard]] std::shared_ptr<entity_type const> const& shared_entity() const noexcept { return e_; }
    [[nodiscard]] void const* id() const noexcept { return e_ ? e_->identity() : nullptr; }
    [[nodiscard]] reference_type reference() const noexcept { return reference_type{id()}; }
    [[nodiscard]] explicit operator bool() const noexcept { return e_ != nullptr; }
    friend bool operator==(element const& a, element const& b) noexcept { return a.id() == b.id(); }
    friend bool operator!=(element const& a, element const& b) noexcept { return a.id() != b.id(); }
    friend std::ostream& operator<<(std::ostream& out, element const& v) { return out << "descriptor:" << v.id(); }
private:
    std::shared_ptr<entity_type const> e_{};
};
}
template <takatori::descriptor::descriptor_kind K>
struct std::hash<takatori::descriptor::element<K>> {
    std::size_t operator()(takatori::descriptor::element<K> const& v) const noexcept { return std::hash<void const*>{}(v.id()); }
};
template <>
struct std::hash<takatori::descriptor::element<takatori::descriptor::descriptor_kind::variable>::reference_type> {
    std::size_t operator()(takatori::descriptor::element<takatori::descriptor::descriptor_kind::variable>::reference_type const& v) const noexcept {
        return std::hash<void const*>{}(v.p_);
    }
};
