#pragma once
#include <bitset>
#include <iterator>
#include <memory>
#include <cstddef>
#include <initializer_list>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template <class T, T First, T Last> class enum_set {
public:
    using value_type = T;
    using size_type = std::size_t;
    static constexpr size_type N = static_cast<size_type>(Last) - static_cast<size_type>(First) + 1;
    constexpr enum_set() noexcept = default;
    enum_set(std::initializer_list<T> l) { for (auto v : l) insert(v); }
    [[nodiscard]] bool contains(T v) const noexcept { return body_[pos(v)]; }
    [[nodiscard]] bool operator[](T v) const noexcept { return contains(v); }
    [[nodiscard]] bool empty() const noexcept { return body_.none(); }
    explicit operator bool() const noexcept { return !empty(); }
    [[nodiscard]] size_type size() const noexcept { return body_.count(); }
    [[nodiscard]] static constexpr size_type capacity() noexcept { return N; }
    void clear() noexcept { body_.reset(); }
    enum_set& insert(T v) noexcept { body_[pos(v)] = true; return *this; }
    enum_set& erase(T v) noexcept { body_[pos(v)] = false; return *this; }
    class iterator {
    public:
        using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T; using iterator_category = std::input_iterator_tag;
        iterator(enum_set const* s, size_type i) : s_(s), i_(i) { skip(); }
        T operator*() const { return static_cast<T>(static_cast<size_type>(First) + i_); }
        iterator& operator++() { ++i_; skip(); return *this; }
        iterator operator++(int) { auto r = *this; ++*this; return r; }
        bool operator==(iterator const& o) const { return i_ == o.i_; }
        bool operator!=(iterator const& o) const { return i_ != o.i_; }
    private:
        void skip() { while (i_ < N && !s_->body_[i_]) ++i_; }
        enum_set const* s_; size_type i_;
    };
    [[nodiscard]] iterator begin() const { return {this, 0}; }
    [[nodiscard]] iterator end() const { return {this, N}; }
    friend bool operator==(enum_set const& a, enum_set const& b) noexcept { return a.body_ == b.body_; }
    friend bool operator!=(enum_set const& a, enum_set const& b) noexcept { return a.body_ != b.body_; }
    friend enum_set operator|(enum_set a, enum_set const& b) noexcept { a.body_ |= b.body_; return a; }
    friend enum_set operator&(enum_set a, enum_set const& b) noexcept { a.body_ &= b.body_; return a; }
    enum_set& operator|=(enum_set const& b) noexcept { body_ |= b.body_; return *this; }
    enum_set& operator&=(enum_set const& b) noexcept { body_ &= b.body_; return *this; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) {
        out << "{"; bool f = true;
        for (auto e : v) { if (!f) out << ", "; f = false; out << e; }
        return out << "}";
    }
private:
    static constexpr size_type pos(T v) noexcept { return static_cast<size_type>(v) - static_cast<size_type>(First); }
    std::bitset<N> body_{};
};
}
