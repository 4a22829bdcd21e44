#pragma once
#include <ostream>
namespace takatori::plan {
enum class group_mode { equivalence, equivalence_or_whole };
inline std::ostream& operator<<(std::ostream& out, group_mode k) { return out << static_cast<int>(k); }
}
