#pragma once
#include <cstdint>
#include <string>
namespace sharksfin {
class StorageOptions {
public:
    using storage_id_type = std::uint64_t;
    static constexpr storage_id_type undefined = static_cast<storage_id_type>(-1);
    StorageOptions() = default;
    explicit StorageOptions(storage_id_type id, std::string payload = {}) : id_(id), payload_(std::move(payload)) {}
    [[nodiscard]] storage_id_type storage_id() const noexcept { return id_; }
    StorageOptions& storage_id(storage_id_type v) noexcept { id_ = v; return *this; }
    [[nodiscard]] std::string const& payload() const noexcept { return payload_; }
    StorageOptions& payload(std::string v) noexcept { payload_ = std::move(v); return *this; }
private:
    storage_id_type id_{undefined};
    std::string payload_{};
};
}
