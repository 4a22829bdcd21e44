#pragma once
namespace tateyama::task_scheduler {
enum class schedule_policy_kind { undefined, suspended_worker };
class schedule_option {
public:
    schedule_option() = default;
    explicit schedule_option(schedule_policy_kind p) : policy_(p) {}
    [[nodiscard]] schedule_policy_kind policy() const noexcept { return policy_; }
private:
    schedule_policy_kind policy_{schedule_policy_kind::undefined};
};
}
