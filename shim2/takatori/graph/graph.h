#pragma once
#include <memory>
#include <vector>
namespace takatori::graph {
template <class T>
class graph {
public:
    template <class U, class... A>
    U& emplace(A&&... a) {
        auto p = std::make_unique<U>(std::forward<A>(a)...);
        auto& r = *p;
        v_.emplace_back(std::move(p));
        return r;
    }
    struct iterator {
        typename std::vector<std::unique_ptr<T>>::const_iterator it;
        T& operator*() const { return **it; }
        iterator& operator++() { ++it; return *this; }
        bool operator!=(iterator const& o) const { return it != o.it; }
    };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
    [[nodiscard]] std::size_t size() const { return v_.size(); }
    [[nodiscard]] bool empty() const { return v_.empty(); }
private:
    std::vector<std::unique_ptr<T>> v_{};
};
}
