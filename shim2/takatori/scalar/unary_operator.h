#pragma once
#include <ostream>
namespace takatori::scalar {
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
inline std::ostream& operator<<(std::ostream& out, unary_operator k) { return out << static_cast<int>(k); }
}
