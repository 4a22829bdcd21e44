#pragma once
#include <ostream>
namespace takatori::scalar {
enum class match_operator { like, similar };
inline std::ostream& operator<<(std::ostream& out, match_operator k) { return out << static_cast<int>(k); }
}
