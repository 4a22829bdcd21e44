#pragma once
#include <ostream>
namespace sharksfin {
class TransactionState {
public:
    enum class StateKind { UNKNOWN, WAITING_START, STARTED, WAITING_CC_COMMIT, COMMITTABLE, ABORTED, WAITING_DURABLE, DURABLE };
    TransactionState() = default;
    explicit TransactionState(StateKind k) : kind_(k) {}
    [[nodiscard]] StateKind state_kind() const noexcept { return kind_; }
private:
    StateKind kind_{StateKind::UNKNOWN};
};
inline std::ostream& operator<<(std::ostream& out, TransactionState::StateKind k) { return out << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& out, TransactionState const& k) { return out << k.state_kind(); }
}
