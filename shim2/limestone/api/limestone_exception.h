#pragma once
#include <stdexcept>
#include <string>
namespace limestone::api {
enum class exception_type { fatal_error, initialization_failure, blob_error };
class limestone_blob_exception : public std::runtime_error {
public:
    limestone_blob_exception(exception_type, std::string const& message, int code = 0) : std::runtime_error(message), code_(code) {}
    [[nodiscard]] int error_code() const noexcept { return code_; }
private:
    int code_;
};
}
