#pragma once
#include <takatori/relation/ir.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class write : public statement {
public:
    using operator_kind_type = relation::write_kind;
    using column = descriptor::variable;
    using tuple = relation::details::values_row;
    write(operator_kind_type op, descriptor::relation d, std::vector<column> c, std::vector<tuple> t) :
        op_(op), d_(std::move(d)), c_(std::move(c)), t_(std::move(t)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::write; }
    [[nodiscard]] operator_kind_type operator_kind() const noexcept { return op_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] tree::tree_fragment_vector<tuple> const& tuples() const noexcept { return t_; }
private:
    operator_kind_type op_;
    descriptor::relation d_;
    std::vector<column> c_;
    tree::tree_fragment_vector<tuple> t_;
};
}
