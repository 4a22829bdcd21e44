#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <boost/filesystem/path.hpp>
namespace data_relay_grpc::common {
class blob_session {
public:
    using blob_id_type = std::uint64_t;
    using blob_tag_type = std::uint64_t;
    virtual ~blob_session() = default;
    [[nodiscard]] virtual std::uint64_t session_id() const noexcept = 0;
    virtual void dispose() = 0;
    [[nodiscard]] virtual std::optional<boost::filesystem::path> find(blob_id_type id) const = 0;
    [[nodiscard]] virtual blob_tag_type compute_tag(blob_id_type id) const = 0;
};
}
