#pragma once
#include <cstdint>
#include <string_view>
#include <boost/filesystem/path.hpp>
namespace limestone::api {
using blob_id_type = std::uint64_t;
using blob_reference_tag_type = std::uint64_t;
class blob_pool {
public:
    blob_pool() = default;
    virtual ~blob_pool() = default;
    virtual void release() = 0;
    [[nodiscard]] virtual blob_id_type register_file(boost::filesystem::path const& file, bool is_temporary_file) = 0;
    [[nodiscard]] virtual blob_id_type register_data(std::string_view data) = 0;
    [[nodiscard]] virtual blob_id_type duplicate_data(blob_id_type reference) = 0;
};
}
