#pragma once
#include <ostream>
namespace takatori::scalar {
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
inline std::ostream& operator<<(std::ostream& out, cast_loss_policy k) { return out << static_cast<int>(k); }
}
