#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class context {
public:
    explicit context(std::size_t index) : index_(index) {}
    [[nodiscard]] std::size_t index() const noexcept { return index_; }
    [[nodiscard]] bool task_is_stolen() const noexcept { return false; }
    [[nodiscard]] std::size_t last_steal_from() const noexcept { return index_; }
private:
    std::size_t index_{};
};
}
