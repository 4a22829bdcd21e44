#pragma once
#include <takatori/plan/step.h>
#include <takatori/relation/graph.h>
namespace takatori::plan {
class process : public step {
public:
    [[nodiscard]] relation::graph_type const& operators() const noexcept { return operators_; }
    relation::graph_type& operators() noexcept { return operators_; }
private:
    relation::graph_type operators_{};
};
}
