#pragma once
#include <string>
#include <google/protobuf/wrappers.pb.h>
#include <utility>
namespace tateyama::proto::diagnostics {
enum class Code { UNKNOWN, SYSTEM_ERROR, UNSUPPORTED_OPERATION, ILLEGAL_STATE, IO_ERROR, INVALID_REQUEST, OPERATION_CANCELED, PERMISSION_ERROR, OPERATION_DENIED };
class Record {
public:
    void set_code(Code c) { c_ = c; }
    void set_message(std::string m) { m_ = std::move(m); }
    [[nodiscard]] Code code() const { return c_; }
    [[nodiscard]] std::string const& message() const { return m_; }
    operator ::google::protobuf::Message const&() const { return v_; }
private:
    Code c_{};
    std::string m_{};
    ::google::protobuf::StringValue v_{};
};
}
