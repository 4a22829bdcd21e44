#pragma once
#include <vector>
#include <sharksfin/api.h>
namespace sharksfin {
class TransactionOptions {
public:
    enum class TransactionType { SHORT, LONG, READ_ONLY };
    static constexpr auto SHORT = TransactionType::SHORT;
    class TableArea {
    public:
        TableArea(StorageHandle h) : h_(h) {}  // NOLINT
        [[nodiscard]] StorageHandle handle() const noexcept { return h_; }
    private:
        StorageHandle h_;
    };
    using WritePreserves = std::vector<TableArea>;
    using ReadAreas = std::vector<TableArea>;
    TransactionOptions() = default;
    TransactionOptions(TransactionType t, WritePreserves w, ReadAreas i = {}, ReadAreas e = {}) :
        type_(t), wps_(std::move(w)), rai_(std::move(i)), rae_(std::move(e)) {}
    [[nodiscard]] TransactionType transaction_type() const noexcept { return type_; }
    [[nodiscard]] WritePreserves const& write_preserves() const noexcept { return wps_; }
    [[nodiscard]] ReadAreas const& read_areas_inclusive() const noexcept { return rai_; }
    [[nodiscard]] ReadAreas const& read_areas_exclusive() const noexcept { return rae_; }
private:
    TransactionType type_{TransactionType::SHORT};
    WritePreserves wps_{};
    ReadAreas rai_{}, rae_{};
};
}
