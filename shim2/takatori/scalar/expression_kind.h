#pragma once
#include <ostream>
namespace takatori::scalar {
enum class expression_kind {
    immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension,
};
inline std::ostream& operator<<(std::ostream& out, expression_kind k) { return out << static_cast<int>(k); }
}
