#pragma once
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit to_string_t() = default; };
    static constexpr to_string_t to_string{};
    template <class T> string_builder& operator<<(T&& v) & { out_ << std::forward<T>(v); return *this; }
    template <class T> string_builder&& operator<<(T&& v) && { out_ << std::forward<T>(v); return std::move(*this); }
    std::string operator<<(to_string_t) { return out_.str(); }
    string_builder& operator<<(std::ostream& (*f)(std::ostream&)) { out_ << f; return *this; }
    [[nodiscard]] std::ostringstream& buffer() { return out_; }
    [[nodiscard]] std::string str() const { return out_.str(); }
private:
    std::ostringstream out_{};
};
}
