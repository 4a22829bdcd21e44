#pragma once
#include <memory>
#include <deque>
#include <takatori/graph/port.h>
#include <takatori/relation/expression_kind.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation {
class expression {
public:
    using input_port_type = graph::port<expression, true>;
    using output_port_type = graph::port<expression, false>;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    virtual ~expression() = default;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] std::deque<input_port_type>& input_ports() noexcept { return in_; }
    [[nodiscard]] std::deque<input_port_type> const& input_ports() const noexcept { return in_; }
    [[nodiscard]] std::deque<output_port_type>& output_ports() noexcept { return out_; }
    [[nodiscard]] std::deque<output_port_type> const& output_ports() const noexcept { return out_; }
    [[nodiscard]] input_port_type& input() noexcept { return in_[0]; }
    [[nodiscard]] input_port_type const& input() const noexcept { return in_[0]; }
    [[nodiscard]] output_port_type& output() noexcept { return out_[0]; }
    [[nodiscard]] output_port_type const& output() const noexcept { return out_[0]; }
protected:
    expression(std::size_t inputs, std::size_t outputs) {
        for (std::size_t i = 0; i < inputs; ++i) in_.emplace_back(*this, i);
        for (std::size_t i = 0; i < outputs; ++i) out_.emplace_back(*this, i);
    }
private:
    std::deque<input_port_type> in_{};
    std::deque<output_port_type> out_{};
};
}
