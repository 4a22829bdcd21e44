#pragma once
#include <cstdint>
#include <limits>
#include <optional>
#include <string>
namespace yugawara::storage {
class sequence {
public:
    using definition_id_type = std::size_t;
    using value_type = std::int64_t;
    sequence(std::string name, value_type initial = 0, value_type inc = 1, value_type min = std::numeric_limits<value_type>::min(),
        value_type max = std::numeric_limits<value_type>::max(), bool cycle = true, std::string description = {}) :
        sequence(std::nullopt, std::move(name), initial, inc, min, max, cycle, std::move(description)) {}
    sequence(std::optional<definition_id_type> id, std::string name, value_type initial = 0, value_type inc = 1,
        value_type min = std::numeric_limits<value_type>::min(), value_type max = std::numeric_limits<value_type>::max(), bool cycle = true, std::string description = {}) :
        description_(std::move(description)), id_(id), name_(std::move(name)), initial_(initial), inc_(inc), min_(min), max_(max), cycle_(cycle) {}
    [[nodiscard]] std::optional<definition_id_type> definition_id() const noexcept { return id_; }
    sequence& definition_id(std::optional<definition_id_type> id) noexcept { id_ = id; return *this; }
    [[nodiscard]] std::string const& simple_name() const noexcept { return name_; }
    [[nodiscard]] value_type initial_value() const noexcept { return initial_; }
    [[nodiscard]] value_type increment_value() const noexcept { return inc_; }
    [[nodiscard]] value_type min_value() const noexcept { return min_; }
    [[nodiscard]] value_type max_value() const noexcept { return max_; }
    [[nodiscard]] bool cycle() const noexcept { return cycle_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
private:
    std::string description_;
    std::optional<definition_id_type> id_;
    std::string name_;
    value_type initial_, inc_, min_, max_;
    bool cycle_;
};
}
