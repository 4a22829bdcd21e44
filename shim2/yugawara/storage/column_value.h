#pragma once
#include <memory>
#include <ostream>
#include <variant>
#include <takatori/util/enum_tag.h>
#include <takatori/value/data.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/sequence.h>
namespace yugawara::storage {
enum class column_value_kind { nothing, immediate, sequence, function };
inline std::ostream& operator<<(std::ostream& out, column_value_kind k) { return out << static_cast<int>(k); }
namespace details {
template <column_value_kind K> struct column_value_element;
template <> struct column_value_element<column_value_kind::immediate> { using type = std::shared_ptr<takatori::value::data const>; };
template <> struct column_value_element<column_value_kind::sequence> { using type = std::shared_ptr<sequence const>; };
template <> struct column_value_element<column_value_kind::function> { using type = std::shared_ptr<function::declaration const>; };
}
class column_value {
public:
    using kind_type = column_value_kind;
    column_value() = default;
    column_value(std::nullptr_t) {}  // NOLINT
    column_value(std::shared_ptr<takatori::value::data const> v) : v_(std::move(v)) {}  // NOLINT
    column_value(std::shared_ptr<sequence const> v) : v_(std::move(v)) {}  // NOLINT
    column_value(std::shared_ptr<function::declaration const> v) : v_(std::move(v)) {}  // NOLINT
    [[nodiscard]] kind_type kind() const noexcept { return static_cast<kind_type>(v_.index()); }
    [[nodiscard]] explicit operator bool() const noexcept { return v_.index() != 0; }
    template <column_value_kind K> [[nodiscard]] auto const& element() const { return std::get<static_cast<std::size_t>(K)>(v_); }
private:
    std::variant<std::monostate, std::shared_ptr<takatori::value::data const>, std::shared_ptr<sequence const>,
        std::shared_ptr<function::declaration const>> v_{};
};
}
