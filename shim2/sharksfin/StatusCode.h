#pragma once
#include <cstdint>
#include <ostream>
#include <string_view>
// Stand-in for the transaction engine's interface (sharksfin).
namespace sharksfin {
enum class StatusCode : std::int64_t {
    OK = 0, NOT_FOUND = 1, ALREADY_EXISTS = 2, USER_ROLLBACK = 3, WAITING_FOR_OTHER_TRANSACTION = 4,
    PREMATURE = 5, CONCURRENT_OPERATION = 6,
    ERR_UNKNOWN = -1, ERR_IO_ERROR = -2, ERR_INVALID_ARGUMENT = -3, ERR_INVALID_STATE = -4, ERR_UNSUPPORTED = -5,
    ERR_USER_ERROR = -6, ERR_ABORTED = -7, ERR_ABORTED_RETRYABLE = -8, ERR_TIME_OUT = -9, ERR_NOT_IMPLEMENTED = -10,
    ERR_ILLEGAL_OPERATION = -11, ERR_CONFLICT_ON_WRITE_PRESERVE = -12, ERR_WRITE_WITHOUT_WRITE_PRESERVE = -14,
    ERR_INVALID_KEY_LENGTH = -15, ERR_READ_AREA_VIOLATION = -16, ERR_INACTIVE_TRANSACTION = -17,
    ERR_BLOCKED_BY_CONCURRENT_OPERATION = -18, ERR_RESOURCE_LIMIT_REACHED = -19,
};
inline std::ostream& operator<<(std::ostream& out, StatusCode c) { return out << "StatusCode(" << static_cast<std::int64_t>(c) << ")"; }
}
