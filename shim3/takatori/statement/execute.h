#pragma once
#include <takatori/plan/graph.h>
#include <takatori/plan/process.h>
#include <takatori/statement/statement.h>
namespace takatori::statement {
class execute : public statement {
public:
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::execute; }
    [[nodiscard]] plan::graph_type const& execution_plan() const noexcept { return g_; }
    plan::graph_type& execution_plan() noexcept { return g_; }
private:
    plan::graph_type g_{};
};
class empty : public statement {
public:
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::empty; }
};
}
