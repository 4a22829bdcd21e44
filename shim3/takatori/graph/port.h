#pragma once
#include <takatori/util/optional_ptr.h>
// Stand-in for takatori's graph ports: an input port and an output port know each other.
namespace takatori::graph {
template <class T, bool In>
class port {
public:
    using opposite_type = port<T, ! In>;
    explicit port(T& owner, std::size_t index = 0) : owner_(std::addressof(owner)), index_(index) {}
    [[nodiscard]] T& owner() noexcept { return *owner_; }
    [[nodiscard]] T const& owner() const noexcept { return *owner_; }
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] util::optional_ptr<opposite_type> opposite() noexcept { return util::optional_ptr<opposite_type>{opposite_}; }
    [[nodiscard]] util::optional_ptr<opposite_type const> opposite() const noexcept { return util::optional_ptr<opposite_type const>{opposite_}; }
    void connect_to(opposite_type& o) noexcept { opposite_ = std::addressof(o); o.opposite_ = this; }
private:
    friend opposite_type;
    T* owner_;
    std::size_t index_;
    opposite_type* opposite_{};
};
template <class T>
port<T, true>& operator>>(port<T, false>& o, port<T, true>& i) { o.connect_to(i); return i; }
}
