#pragma once
#include <ostream>
namespace takatori::document {
struct region { std::size_t begin{}, end{}; };
inline std::ostream& operator<<(std::ostream& out, region const& r) { return out << r.begin << "-" << r.end; }
}
