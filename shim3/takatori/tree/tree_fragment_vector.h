#pragma once
#include <memory>
#include <vector>
// Stand-in for takatori's owned lists of tree fragments.
namespace takatori::tree {
template <class T>
class tree_fragment_vector {
public:
    using value_type = T;
    tree_fragment_vector() = default;
    tree_fragment_vector(std::vector<T> v) { for (auto& e : v) v_.emplace_back(std::make_unique<T>(std::move(e))); }  // NOLINT
    struct iterator {
        typename std::vector<std::unique_ptr<T>>::const_iterator it;
        T& operator*() const { return **it; }
        T* operator->() const { return it->get(); }
        iterator& operator++() { ++it; return *this; }
        bool operator!=(iterator const& o) const { return it != o.it; }
        bool operator==(iterator const& o) const { return it == o.it; }
    };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
    [[nodiscard]] std::size_t size() const { return v_.size(); }
    [[nodiscard]] bool empty() const { return v_.empty(); }
    T& operator[](std::size_t i) const { return *v_[i]; }
    T& at(std::size_t i) const { return *v_.at(i); }
    T& front() const { return *v_.front(); }
    void push_back(T v) { v_.emplace_back(std::make_unique<T>(std::move(v))); }
private:
    std::vector<std::unique_ptr<T>> v_{};
};
}
