#pragma once
#include <unordered_set>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/graph.h>
#include <takatori/util/optional_ptr.h>
// declarations only: the block analysis belongs to the SQL compiler
namespace yugawara::analyzer {
class block {
public:
    struct iterator {
        takatori::relation::expression& operator*() const;
        iterator& operator++();
        bool operator!=(iterator const& o) const;
    };
    [[nodiscard]] iterator begin() const;
    [[nodiscard]] iterator end() const;
    [[nodiscard]] std::vector<block> const& downstreams() const;
};
class block_graph {};
class block_builder {
public:
    static block_graph build(takatori::relation::graph_type& g);
};
takatori::util::optional_ptr<block const> find_unique_head(block_graph const& g);
class variable_liveness_info {
public:
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& define() const;
    [[nodiscard]] std::unordered_set<takatori::descriptor::variable> const& kill() const;
};
class variable_liveness_analyzer {
public:
    explicit variable_liveness_analyzer(block_graph const& g);
    variable_liveness_info const& inspect(block const& b);
};
}
