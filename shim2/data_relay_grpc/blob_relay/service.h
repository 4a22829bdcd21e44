#pragma once
#include <optional>
#include <data_relay_grpc/common/session.h>
namespace data_relay_grpc::blob_relay {
class blob_relay_service {
public:
    virtual ~blob_relay_service() = default;
    [[nodiscard]] virtual common::blob_session& create_session(std::optional<std::uint64_t> transaction_id) = 0;
};
}
