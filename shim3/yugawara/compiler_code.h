#pragma once
#include <ostream>
namespace yugawara {
enum class compiler_code { unknown, ambiguous_type, inconsistent_type, unsupported_type, unresolved_variable, unsupported_feature };
inline std::ostream& operator<<(std::ostream& out, compiler_code c) { return out << static_cast<int>(c); }
}
