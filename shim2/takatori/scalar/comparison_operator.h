#pragma once
#include <ostream>
namespace takatori::scalar {
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
inline std::ostream& operator<<(std::ostream& out, comparison_operator k) { return out << static_cast<int>(k); }
}
