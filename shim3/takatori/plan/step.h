#pragma once
#include <deque>
#include <ostream>
#include <set>
#include <vector>
#include <takatori/graph/graph.h>
#include <takatori/util/optional_ptr.h>
// Stand-in for takatori's execution plan: steps and the data flow between them.
namespace takatori::plan {
enum class step_kind { process, forward, group, aggregate, broadcast, discard };
inline std::ostream& operator<<(std::ostream& out, step_kind k) { return out << static_cast<int>(k); }
class step {
public:
    step() = default;
    step(step const&) = delete;
    step& operator=(step const&) = delete;
    virtual ~step() = default;
    [[nodiscard]] virtual step_kind kind() const noexcept = 0;
    std::vector<step*> up_{}, down_{};
};
template <class T>
struct neighbors {
    struct iterator {
        std::vector<step*>::const_iterator i;
        T& operator*() const { return static_cast<T&>(**i); }
        iterator& operator++() { ++i; return *this; }
        bool operator!=(iterator const& o) const { return i != o.i; }
        bool operator==(iterator const& o) const { return i == o.i; }
    };
    std::vector<step*> const& v;
    T& operator[](std::size_t i) const { return static_cast<T&>(*v[i]); }
    [[nodiscard]] std::size_t size() const { return v.size(); }
    [[nodiscard]] bool empty() const { return v.empty(); }
    [[nodiscard]] iterator begin() const { return {v.begin()}; }
    [[nodiscard]] iterator end() const { return {v.end()}; }
};
class process;
class exchange : public step {
public:
    [[nodiscard]] neighbors<process> upstreams() const noexcept { return {up_}; }
    [[nodiscard]] neighbors<process> downstreams() const noexcept { return {down_}; }
};
inline step& operator>>(step& a, step& b) {
    a.down_.emplace_back(std::addressof(b));
    b.up_.emplace_back(std::addressof(a));
    return b;
}
using graph_type = ::takatori::graph::graph<step>;
inline bool has_upstream(step const& s) noexcept { return ! s.up_.empty(); }
inline bool has_downstream(step const& s) noexcept { return ! s.down_.empty(); }
template <class F> void enumerate_upstream(step const& s, F&& f) { for (auto* p : s.up_) f(*p); }
template <class F> void enumerate_bottom(graph_type const& g, F&& f) { for (auto&& e : g) if (e.down_.empty()) f(e); }
template <class F> void enumerate_downstream(step const& s, F&& f) { for (auto* p : s.down_) f(*p); }
namespace details {
template <class F>
void walk(step& e, std::set<step*>& seen, F& f) {
    for (auto* p : e.up_) if (seen.count(p) == 0) return;
    if (! seen.insert(std::addressof(e)).second) return;
    f(e);
    for (auto* p : e.down_) walk(*p, seen, f);
}
}
template <class F>
void sort_from_upstream(graph_type const& g, F&& f) {
    std::set<step*> seen{};
    for (auto&& e : g) if (e.up_.empty()) details::walk(e, seen, f);
}
}
