#pragma once
#include <memory>
#include <vector>
namespace takatori::util {
/// owns its elements, which keep their addresses
template <class T> class reference_vector {
public:
    template <class U = T, class... A> U& emplace_back(A&&... a) { auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; v_.emplace_back(std::move(p)); return r; }
    void push_back(T&& t) { v_.emplace_back(std::make_unique<T>(std::move(t))); }
    void reserve(std::size_t n) { v_.reserve(n); }
    [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
    [[nodiscard]] bool empty() const noexcept { return v_.empty(); }
    T& operator[](std::size_t i) { return *v_[i]; }
    T const& operator[](std::size_t i) const { return *v_[i]; }
    struct iterator { typename std::vector<std::unique_ptr<T>>::const_iterator it; T& operator*() const { return **it; } T* operator->() const { return it->get(); } iterator& operator++() { ++it; return *this; } bool operator!=(iterator const& o) const { return it != o.it; } };
    [[nodiscard]] iterator begin() const { return {v_.begin()}; }
    [[nodiscard]] iterator end() const { return {v_.end()}; }
private:
    std::vector<std::unique_ptr<T>> v_{};
};
}
