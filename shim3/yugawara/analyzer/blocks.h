#pragma once
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/ir.h>
#include <takatori/util/optional_ptr.h>
// Stand-in for the SQL compiler's block analysis: a block is a chain of operators up to one with several outputs.
namespace yugawara::analyzer {
namespace tr = takatori::relation;
class block {
public:
    struct iterator {
        std::vector<tr::expression*>::const_iterator it;
        tr::expression& operator*() const { return **it; }
        iterator& operator++() { ++it; return *this; }
        bool operator!=(iterator const& o) const { return it != o.it; }
    };
    [[nodiscard]] iterator begin() const { return {e_.begin()}; }
    [[nodiscard]] iterator end() const { return {e_.end()}; }
    [[nodiscard]] std::deque<block> const& downstreams() const { return d_; }
    static void build(block& b, tr::expression& e) {
        auto* p = std::addressof(e);
        while (true) {
            b.e_.emplace_back(p);
            if (p->output_ports().size() != 1) break;
            p = std::addressof(p->output().opposite()->owner());
        }
        for (auto& o : p->output_ports()) build(b.d_.emplace_back(), o.opposite()->owner());
    }
private:
    std::vector<tr::expression*> e_{};
    std::deque<block> d_{};
};
class block_graph {
public:
    std::deque<block> heads{};
};
class block_builder {
public:
    static block_graph build(tr::graph_type& g) {
        block_graph r{};
        for (auto& e : g) if (e.input_ports().empty()) block::build(r.heads.emplace_back(), e);
        return r;
    }
};
inline takatori::util::optional_ptr<block const> find_unique_head(block_graph const& g) {
    if (g.heads.size() != 1) return {};
    return takatori::util::optional_ptr<block const>{std::addressof(g.heads.front())};
}
class variable_liveness_info {
public:
    using variables = std::unordered_set<takatori::descriptor::variable>;
    [[nodiscard]] variables const& define() const { return define_; }
    [[nodiscard]] variables const& kill() const { return kill_; }
    variables define_{}, kill_{};
};
/// reports what a block defines; nothing is reported killed, so every variable stays available downstream
class variable_liveness_analyzer {
public:
    explicit variable_liveness_analyzer(block_graph const&) {}
    variable_liveness_info const& inspect(block const& b) {
        auto& r = info_[std::addressof(b)];
        using k = tr::expression_kind;
        auto all = [&](auto const& cols) { for (auto&& c : cols) r.define_.emplace(c.destination()); };
        for (auto& e : b) {
            switch (e.kind()) {
                case k::find: all(static_cast<tr::find const&>(e).columns()); break;
                case k::scan: all(static_cast<tr::scan const&>(e).columns()); break;
                case k::join_find: all(static_cast<tr::join_find const&>(e).columns()); break;
                case k::join_scan: all(static_cast<tr::join_scan const&>(e).columns()); break;
                case k::take_flat: all(static_cast<tr::step::take_flat const&>(e).columns()); break;
                case k::take_group: all(static_cast<tr::step::take_group const&>(e).columns()); break;
                case k::take_cogroup: for (auto&& g : static_cast<tr::step::take_cogroup const&>(e).groups()) all(g.columns()); break;
                case k::aggregate_group: all(static_cast<tr::step::aggregate const&>(e).columns()); break;
                case k::apply: for (auto&& c : static_cast<tr::apply const&>(e).columns()) r.define_.emplace(c.variable()); break;
                case k::project: for (auto&& c : static_cast<tr::project const&>(e).columns()) r.define_.emplace(c.variable()); break;
                case k::values: for (auto&& c : static_cast<tr::values const&>(e).columns()) r.define_.emplace(c); break;
                default: break;
            }
        }
        return r;
    }
private:
    std::unordered_map<block const*, variable_liveness_info> info_{};
};
}
