#pragma once
#include <takatori/plan/step.h>
#include <takatori/relation/graph.h>
namespace takatori::plan {
class process : public step {
public:
    [[nodiscard]] step_kind kind() const noexcept override { return step_kind::process; }
    [[nodiscard]] relation::graph_type const& operators() const noexcept { return operators_; }
    relation::graph_type& operators() noexcept { return operators_; }
    [[nodiscard]] neighbors<exchange> upstreams() const noexcept { return {up_}; }
    [[nodiscard]] neighbors<exchange> downstreams() const noexcept { return {down_}; }
private:
    relation::graph_type operators_{};
};
}
