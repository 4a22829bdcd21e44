#pragma once
#include <cstddef>
#include <utility>
namespace tateyama::task_scheduler {
class task_scheduler_cfg {
public:
#define VF(t, n) t n##_{}; void n(t v) { n##_ = v; } t n() const { return n##_; }
    VF(std::size_t, thread_count) VF(std::size_t, force_numa_node) VF(bool, core_affinity) VF(bool, assign_numa_nodes_uniformly)
    VF(std::size_t, initial_core) VF(bool, stealing_enabled) VF(bool, use_preferred_worker_for_current_thread) VF(std::size_t, stealing_wait)
    VF(std::size_t, task_polling_wait) VF(bool, busy_worker) VF(std::size_t, watcher_interval) VF(std::size_t, worker_try_count)
    VF(std::size_t, worker_suspend_timeout)
#undef VF
    struct ratio { std::size_t n, d; };
    ratio r_{};
    void ratio_check_local_first(ratio r) { r_ = r; }
};
}
