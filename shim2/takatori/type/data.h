#pragma once
#include <cstdint>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <vector>
#include <takatori/type/type_kind.h>
// Stand-in for takatori's types: plain values with the same accessors.
namespace takatori::type {
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual type_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::unique_ptr<data> copy() const = 0;
    virtual bool equals(data const& o) const noexcept { return kind() == o.kind(); }
    virtual std::ostream& print_to(std::ostream& out) const { return out << kind(); }
    friend bool operator==(data const& a, data const& b) noexcept { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) noexcept { return ! a.equals(b); }
    friend std::ostream& operator<<(std::ostream& out, data const& d) { return d.print_to(out); }
protected:
    data() = default;
    data(data const&) = default;
    data& operator=(data const&) = default;
};
namespace impl {
template <type_kind K, class Self>
class base : public data {
public:
    static constexpr type_kind tag = K;
    [[nodiscard]] type_kind kind() const noexcept override { return K; }
    [[nodiscard]] std::unique_ptr<data> copy() const override { return std::make_unique<Self>(static_cast<Self const&>(*this)); }
};
}
template <type_kind K>
class simple_type : public impl::base<K, simple_type<K>> {};
}
