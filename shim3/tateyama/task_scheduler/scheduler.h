#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <functional>
#include <mutex>
#include <ostream>
#include <thread>
#include <vector>
#include <tateyama/task_scheduler/context.h>
#include <tateyama/task_scheduler/schedule_option.h>
#include <tateyama/task_scheduler/task_scheduler_cfg.h>
// Stand-in for the work stealing scheduler: a pool of workers, each with its own queue and a queue of tasks that
// only it may run; idle workers take from the others' common queues.  Conditional tasks are watched by one thread.
namespace tateyama::task_scheduler {
template <class T, class C>
class scheduler {
public:
    using task = T;
    using conditional_task = C;
    using initializer_type = std::function<void(std::size_t)>;
    explicit scheduler(task_scheduler_cfg cfg = {}, initializer_type init = {}) : cfg_(cfg), init_(std::move(init)), queues_(n()), local_(n()) {}
    ~scheduler() { stop(); }
    scheduler(scheduler const&) = delete;
    [[nodiscard]] std::size_t next_worker() { return next_++ % n(); }
    [[nodiscard]] std::size_t preferred_worker_for_current_thread() {
        return std::hash<std::thread::id>{}(std::this_thread::get_id()) % n();
    }
    void schedule(T&& t, schedule_option = {}) {
        auto w = cfg_.use_preferred_worker_for_current_thread() ? preferred_worker_for_current_thread() : next_worker();
        put(queues_[w], std::move(t));
    }
    void schedule_at(T&& t, std::size_t w) {
        put(t.sticky() ? local_[w % n()] : queues_[w % n()], std::move(t));
    }
    void schedule_conditional(C&& t) {
        std::unique_lock lk{m_};
        cond_.emplace_back(std::move(t));
        cv_.notify_all();
    }
    void start() {
        for (std::size_t i = 0; i < n(); ++i) threads_.emplace_back([this, i] { work(i); });
        threads_.emplace_back([this] { watch(); });
    }
    void stop() {
        {
            std::unique_lock lk{m_};
            stop_ = true;
            cv_.notify_all();
        }
        for (auto& t : threads_) if (t.joinable()) t.join();
        threads_.clear();
    }
    void print_worker_stats(std::ostream&) {}
    void print_diagnostic(std::ostream&) {}
private:
    task_scheduler_cfg cfg_;
    initializer_type init_;
    std::mutex m_{};
    std::condition_variable cv_{};
    bool stop_{};
    std::vector<std::deque<T>> queues_, local_;
    std::deque<C> cond_{};
    std::vector<std::thread> threads_{};
    std::atomic_size_t next_{};
    [[nodiscard]] std::size_t n() const { return cfg_.thread_count() == 0 ? 1 : cfg_.thread_count(); }
    void put(std::deque<T>& q, T&& t) {
        std::unique_lock lk{m_};
        q.emplace_back(std::move(t));
        cv_.notify_all();
    }
    void work(std::size_t i) {
        if (init_) init_(i);
        context ctx{i};
        while (true) {
            std::unique_lock lk{m_};
            std::deque<T>* q{};
            cv_.wait(lk, [&] {
                q = nullptr;
                if (! local_[i].empty()) q = &local_[i];
                else for (std::size_t k = 0; k < n() && q == nullptr; ++k) if (auto& c = queues_[(i + k) % n()]; ! c.empty()) q = &c;
                return stop_ || q != nullptr;
            });
            if (stop_) return;
            T t{std::move(q->front())};
            q->pop_front();
            lk.unlock();
            t(ctx);
        }
    }
    void watch() {
        context ctx{n()};
        while (true) {
            std::unique_lock lk{m_};
            cv_.wait_for(lk, std::chrono::microseconds{500}, [&] { return stop_; });
            if (stop_) return;
            std::deque<C> c{};
            c.swap(cond_);
            lk.unlock();
            std::deque<C> keep{};
            for (auto& e : c) {
                if (e.check()) e(); else keep.emplace_back(std::move(e));
            }
            lk.lock();
            for (auto& e : keep) cond_.emplace_back(std::move(e));
        }
    }
};
}
