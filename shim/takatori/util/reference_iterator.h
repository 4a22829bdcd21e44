#pragma once
#include <iterator>
#include <memory>
#include <type_traits>
#include <takatori/util/reference_extractor.h>
namespace takatori::util {
// iterates over pointers, presenting what they point to
template <class I, class E = reference_extractor<std::remove_reference_t<typename std::iterator_traits<I>::reference>>> class reference_iterator {
public:
    using reference = typename E::reference;
    using value_type = std::remove_cv_t<std::remove_reference_t<reference>>;
    using pointer = std::add_pointer_t<std::remove_reference_t<reference>>;
    using difference_type = typename std::iterator_traits<I>::difference_type;
    using iterator_category = typename std::iterator_traits<I>::iterator_category;
    constexpr reference_iterator() = default;
    constexpr reference_iterator(I i) : i_(i) {}
    reference operator*() const { return E::extract(*i_); }
    pointer operator->() const { return std::addressof(**this); }
    reference operator[](difference_type n) const { return *(*this + n); }
    reference_iterator& operator++() { ++i_; return *this; }
    reference_iterator operator++(int) { auto r = *this; ++i_; return r; }
    reference_iterator& operator--() { --i_; return *this; }
    reference_iterator operator--(int) { auto r = *this; --i_; return r; }
    reference_iterator& operator+=(difference_type n) { i_ += n; return *this; }
    reference_iterator& operator-=(difference_type n) { i_ -= n; return *this; }
    friend reference_iterator operator+(reference_iterator a, difference_type n) { a += n; return a; }
    friend reference_iterator operator-(reference_iterator a, difference_type n) { a -= n; return a; }
    friend difference_type operator-(reference_iterator const& a, reference_iterator const& b) { return a.i_ - b.i_; }
    friend bool operator==(reference_iterator const& a, reference_iterator const& b) { return a.i_ == b.i_; }
    friend bool operator!=(reference_iterator const& a, reference_iterator const& b) { return a.i_ != b.i_; }
    friend bool operator<(reference_iterator const& a, reference_iterator const& b) { return a.i_ < b.i_; }
    I unwrap() const { return i_; }
private:
    I i_{};
};
}
