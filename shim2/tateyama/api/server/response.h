#pragma once
#include <cstdint>
#include <filesystem>
#include <memory>
#include <string_view>
#include <tateyama/status.h>
// Stand-in for the server's response interface (the members jogasaki's engine uses).
namespace tateyama::proto::diagnostics { class Record; }
namespace tateyama::api::server {
class writer {
public:
    virtual ~writer() = default;
    virtual status write(char const* data, std::size_t length) = 0;
    virtual status commit() = 0;
};
class data_channel {
public:
    virtual ~data_channel() = default;
    virtual status acquire(std::shared_ptr<writer>& wrt) = 0;
    virtual status release(writer& wrt) = 0;
};
class blob_info {
public:
    virtual ~blob_info() = default;
    [[nodiscard]] virtual std::string_view channel_name() const noexcept = 0;
    [[nodiscard]] virtual std::filesystem::path path() const noexcept = 0;
    [[nodiscard]] virtual bool is_temporary() const noexcept = 0;
    virtual void dispose() = 0;
};
class response {
public:
    virtual ~response() = default;
    virtual bool check_cancel() const { return false; }
    virtual status body(std::string_view) { return status::ok; }
    virtual status body_head(std::string_view) { return status::ok; }
    virtual void session_id(std::size_t) {}
    virtual void error(proto::diagnostics::Record const&) {}
    virtual status acquire_channel(std::string_view, std::shared_ptr<data_channel>&, std::size_t) { return status::not_found; }
    virtual status release_channel(data_channel&) { return status::ok; }
    virtual status add_blob(std::unique_ptr<blob_info>) { return status::ok; }
};
}
