#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <takatori/value/value_kind.h>
// Stand-in for takatori's constant values.
namespace takatori::value {
class data {
public:
    virtual ~data() = default;
    [[nodiscard]] virtual value_kind kind() const noexcept = 0;
protected:
    data() = default;
    data(data const&) = default;
};
template <value_kind K, class T, class V = T>
class simple_value : public data {
public:
    using entity_type = T;
    using view_type = V;
    static constexpr value_kind tag = K;
    explicit simple_value(T v) : value_(std::move(v)) {}
    [[nodiscard]] value_kind kind() const noexcept override { return K; }
    [[nodiscard]] view_type get() const noexcept { return value_; }
private:
    T value_;
};
}
