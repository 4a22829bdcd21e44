#pragma once
#include <cstdint>
#include <ostream>
#include <string_view>
namespace sharksfin {
enum class ErrorCode : std::int64_t {
    OK = 0, ERROR = -1, KVS_KEY_ALREADY_EXISTS, KVS_KEY_NOT_FOUND, CC_LTX_WRITE_ERROR, CC_OCC_WP_ERROR, CC_OCC_READ_ERROR,
    CC_OCC_PHANTOM_ERROR, CC_LTX_READ_ERROR, CC_LTX_PHANTOM_ERROR, CC_LTX_READ_UPPER_BOUND_VIOLATION, CC_LTX_WRITE_COMMITTED_READ_PROTECTION,
};
inline std::ostream& operator<<(std::ostream& out, ErrorCode c) { return out << "ErrorCode(" << static_cast<std::int64_t>(c) << ")"; }
}
