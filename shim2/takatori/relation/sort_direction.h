#pragma once
#include <ostream>
namespace takatori::relation {
enum class sort_direction { ascendant, descendant };
inline std::ostream& operator<<(std::ostream& out, sort_direction k) { return out << static_cast<int>(k); }
}
