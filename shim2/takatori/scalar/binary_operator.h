#pragma once
#include <ostream>
namespace takatori::scalar {
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
inline std::ostream& operator<<(std::ostream& out, binary_operator k) { return out << static_cast<int>(k); }
}
