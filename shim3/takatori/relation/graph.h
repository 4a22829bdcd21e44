#pragma once
#include <functional>
#include <set>
#include <takatori/graph/graph.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
using graph_type = ::takatori::graph::graph<expression>;
template <class F>
void enumerate_top(graph_type const& g, F&& f) {
    for (auto&& e : g) if (e.input_ports().empty()) f(e);
}
template <class F>
void enumerate_bottom(graph_type const& g, F&& f) {
    for (auto&& e : g) if (e.output_ports().empty()) f(e);
}
namespace details {
template <class F>
void walk(expression& e, std::set<expression*>& seen, F& f) {
    for (auto&& p : e.input_ports()) if (p.opposite() && seen.count(std::addressof(p.opposite()->owner())) == 0) return;
    if (! seen.insert(std::addressof(e)).second) return;
    f(e);
    for (auto&& p : e.output_ports()) if (p.opposite()) walk(p.opposite()->owner(), seen, f);
}
}
template <class F>
void sort_from_upstream(graph_type const& g, F&& f) {
    std::set<expression*> seen{};
    for (auto&& e : g) if (e.input_ports().empty()) details::walk(e, seen, f);
}
}
