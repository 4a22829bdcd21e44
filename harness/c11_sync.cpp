// latch and waitable atomic: wake-ups are never lost and never early, under perturbed schedules.
#define VH_PERTURB_IMPL
#include "perturb.h"
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/latch_set.h>
#include <jogasaki/utils/waitable_atomic.h>
using namespace jogasaki::utils;
using clk = std::chrono::steady_clock;

// A persistent pair of threads meeting at a spinning gate; avoids thread creation per round.
struct gate {
    std::atomic<std::uint64_t> gen{0};
    std::atomic<int> in{0};
    int n;
    explicit gate(int k) : n(k) {}
    void pass() {
        auto g = gen.load();
        if (in.fetch_add(1) + 1 == n) {
            in = 0;
            gen.fetch_add(1);
        } else {
            while (gen.load() == g) sched_yield();
        }
    }
};
static void jitter(vh::rng& r) {
    switch (r.below(4)) {
        case 0: break;
        case 1: for (volatile unsigned i = 0; i < r.below(3000); i = i + 1) {} break;
        case 2: sched_yield(); break;
        default: { timespec ts{0, static_cast<long>(r.below(80000))}; nanosleep(&ts, nullptr); }
    }
}
constexpr auto LONG = std::chrono::seconds(25);
constexpr auto LATE = std::chrono::seconds(15);

static void latch_rounds(std::size_t rounds) {
    gate g{2};
    std::unique_ptr<latch> l;
    std::uint64_t payload = 0;       // plain: the release must order it
    std::atomic<bool> released{false};
    std::atomic<int> mode{0};
    std::atomic<bool> stop{false};
    auto sd = vh::seed();
    std::thread w([&] {
        vh::rng r(sd * 31 + 5);
        for (std::uint64_t i = 1;; ++i) {
            g.pass();
            if (stop) return;
            auto m = mode.load();
            jitter(r);
            bool early = ! released.load();
            try {
                switch (m) {
                    case 0: {
                        l->wait();
                        VH_CHECK(payload == i, "latch.early", "wait() returned before the release (saw " << payload << " in round " << i << ")");
                        break;
                    }
                    case 1: {
                        auto t0 = clk::now();
                        bool ok = l->wait(LONG);
                        VH_CHECK(ok, "latch.timed.lost", "timed wait timed out though the latch was released");
                        VH_CHECK(clk::now() - t0 < LATE, "latch.timed.late", "timed wait slept on after the release");
                        VH_CHECK(payload == i, "latch.timed.early", "timed wait returned before the release");
                        break;
                    }
                    case 2: {
                        // short timed waits until released
                        while (! l->wait(std::chrono::microseconds(r.below(200)))) {}
                        VH_CHECK(payload == i, "latch.poll.early", "timed wait reported a release which did not happen");
                        break;
                    }
                    default: {
                        l->wait();
                        l->wait();                     // idempotent: already released
                        VH_CHECK(payload == i, "latch.twice.early", "wait() returned before the release");
                        VH_CHECK(l->wait(std::chrono::microseconds(1)), "latch.released.timed", "timed wait on a released latch timed out");
                        break;
                    }
                }
            } catch (vh::failure const&) {}
            if (early) vh::event("latch.waited_before_release");
            g.pass();
        }
    });
    vh::rng r(sd * 17 + 3);
    for (std::uint64_t i = 1; i <= rounds; ++i) {
        int m = static_cast<int>(r.below(4));
        bool reuse = l != nullptr && r.coin();
        if (reuse) l->reset(); else l = std::make_unique<latch>();
        released = false;
        mode = m;
        if (reuse && r.coin(5)) {
            // reset really closes it again
            auto t0 = clk::now();
            bool ok = l->wait(std::chrono::microseconds(300));
            if (ok) vh::record_fail("latch.reset", "a reset latch still counts as released");
            if (! ok && clk::now() - t0 < std::chrono::microseconds(300)) vh::record_fail("latch.timeout.short", "timed wait gave up before its duration");
        }
        vh::phase("latch round " + std::to_string(i) + " mode " + std::to_string(m));
        g.pass();
        jitter(r);
        payload = i;
        released = true;
        l->release();
        if (r.coin(10)) l->release();   // idempotent
        g.pass();
        if (i % 64 == 0) vh::nontrivial(vh::mix(i));
        vh::done();
    }
    stop = true;
    g.pass();
    w.join();
    latch born{true};
    born.wait();
    VH_EXPECT(born.wait(std::chrono::nanoseconds(1)), "latch.born", "a latch created released does not let waiters through");
}

// several waiters on one latch: the single release lets all of them through
static void latch_crowd(std::size_t rounds, int n) {
    gate g{n + 1};
    std::unique_ptr<latch> l;
    std::uint64_t payload = 0;
    std::atomic<bool> stop{false};
    auto sd = vh::seed();
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] {
        vh::rng r(sd * 77 + static_cast<std::uint64_t>(t));
        for (std::uint64_t i = 1;; ++i) {
            g.pass();
            if (stop) return;
            jitter(r);
            try {
                if (r.coin(70)) {
                    l->wait();
                } else {
                    auto t0 = clk::now();
                    bool ok = l->wait(LONG);
                    VH_CHECK((ok && clk::now() - t0 < LATE), "latch.crowd.late", "a waiter slept on after the release");
                }
                VH_CHECK(payload == i, "latch.crowd.early", "a waiter returned before the release");
            } catch (vh::failure const&) {}
            g.pass();
        }
    });
    vh::rng r(sd * 19 + 3);
    for (std::uint64_t i = 1; i <= rounds; ++i) {
        l = std::make_unique<latch>();
        vh::phase("latch crowd round " + std::to_string(i));
        g.pass();
        jitter(r);
        payload = i;
        l->release();
        g.pass();
        if (i % 64 == 0) vh::nontrivial(vh::mix(i * 8 + 7));
        vh::done();
    }
    stop = true;
    g.pass();
    for (auto& t : ts) t.join();
}

// n waiters, one writer; every store is followed by notify_all (or one notify_one per waiter)
static void atomic_rounds(std::size_t rounds, int n) {
    gate g{n + 1};
    waitable_atomic<std::uint64_t> a{0};
    std::uint64_t payload = 0;
    std::atomic<bool> stop{false};
    std::atomic<int> mode{0};
    auto sd = vh::seed();
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) {
        ts.emplace_back([&, t] {
            vh::rng r(sd * 101 + static_cast<std::uint64_t>(t));
            for (std::uint64_t i = 1;; ++i) {
                g.pass();
                if (stop) return;
                auto m = mode.load();
                jitter(r);
                if (a.load() == i - 1) vh::event("atomic.waited_before_store");
                try {
                    switch (m) {
                        case 0:
                            a.wait(i - 1);
                            break;
                        case 1: {
                            auto t0 = clk::now();
                            bool ok = a.wait_for(LONG, i - 1);
                            VH_CHECK(ok, "atomic.timed.lost", "wait_for timed out though the value changed");
                            VH_CHECK(clk::now() - t0 < LATE, "atomic.timed.late", "wait_for slept on after the change was notified");
                            break;
                        }
                        default:
                            while (! a.wait_for(std::chrono::microseconds(r.below(300)), i - 1)) {}
                            break;
                    }
                    auto v = a.load();
                    VH_CHECK(v == i, "atomic.early", "wait returned while the value was still " << v << " in round " << i);
                    VH_CHECK(payload == i, "atomic.order", "writes before the store are not visible to the waiter");
                } catch (vh::failure const&) {}
                g.pass();
            }
        });
    }
    vh::rng r(sd * 13 + 11);
    for (std::uint64_t i = 1; i <= rounds; ++i) {
        int m = static_cast<int>(r.below(3));
        mode = m;
        if (r.coin(10)) {
            auto t0 = clk::now();
            bool ok = a.wait_for(std::chrono::microseconds(200), i - 1);
            if (ok) vh::record_fail("atomic.timed.false", "wait_for reported a change though the value is unchanged");
            if (! ok && clk::now() - t0 < std::chrono::microseconds(200)) vh::record_fail("atomic.timeout.short", "wait_for gave up before its duration");
        }
        vh::phase("waitable_atomic round " + std::to_string(i) + " mode " + std::to_string(m) + " waiters " + std::to_string(n));
        g.pass();
        jitter(r);
        payload = i;
        switch (r.below(4)) {
            case 0: a.store(i); break;
            case 1: a = i; break;
            case 2: {
                auto e = i - 1;
                if (! a.compare_exchange_strong(e, i)) vh::record_fail("atomic.cas.strong", "compare exchange failed with the expected value");
                break;
            }
            default: {
                auto e = i + 7;
                if (a.compare_exchange_strong(e, i + 9)) vh::record_fail("atomic.cas.wrong", "compare exchange succeeded with a wrong expectation");
                if (e != i - 1) vh::record_fail("atomic.cas.expected", "failed compare exchange did not report the current value");
                while (! a.compare_exchange_weak(e, i)) {}
                break;
            }
        }
        if (static_cast<std::uint64_t>(a) != i) vh::record_fail("atomic.load", "stored value is not read back");
        if (r.coin()) a.notify_all(); else for (int k = 0; k < n; ++k) a.notify_one();
        g.pass();
        if (i % 64 == 0) vh::nontrivial(vh::mix(i * 8 + static_cast<std::uint64_t>(n)));
        vh::done();
    }
    stop = true;
    g.pass();
    for (auto& t : ts) t.join();
}

static void atomic_counter(std::size_t per) {
    waitable_atomic<std::uint64_t> a{};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&] {
        for (std::size_t i = 0; i < per; ++i) {
            auto v = a.load();
            while (! a.compare_exchange_weak(v, v + 1)) {}
            a.notify_one();
        }
    });
    std::uint64_t seen = 0;
    while (seen < 4 * per) {
        a.wait(seen);
        auto v = a.load();
        VH_CHECK(v > seen, "atomic.monotone", "counter went from " << seen << " to " << v);
        seen = v;
        vh::beat();
    }
    for (auto& t : ts) t.join();
    VH_CHECK(a.load() == 4 * per, "atomic.count", "lost updates: " << a.load() << " of " << 4 * per);
    vh::done();
}

static void latch_sets(std::size_t rounds) {
    latch_set s;
    for (std::size_t i = 0; i < rounds; ++i) {
        std::size_t id = i % 5;
        VH_CHECK(s.get(id) == nullptr, "set.unknown", "an id which is not enabled has a latch");
        auto& l = s.enable(id, 2);
        VH_CHECK(s.get(id) == &l, "set.get", "an enabled id does not give its latch");
        std::uint64_t p[2] = {0, 0};
        std::thread a([&] { p[0] = i + 1; if (auto* x = s.get(id)) x->count_down(); });
        std::thread b([&] { p[1] = i + 1; if (auto* x = s.get(id)) x->count_down(); });
        l.wait();
        VH_CHECK((p[0] == i + 1 && p[1] == i + 1), "set.early", "latch opened before both arrived");
        a.join();
        b.join();
        VH_CHECK(s.disable(id), "set.disable", "disabling an enabled id reports false");
        VH_CHECK(! s.disable(id), "set.disable.twice", "disabling twice reports true");
        VH_CHECK(s.get(id) == nullptr, "set.disabled", "a disabled id still gives a latch");
        if (i % 16 == 15) s.clear();
        vh::done();
    }
}

int main(int argc, char** argv) {
    bool tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c11", "rounds of (waiter, releaser) races; a round is non-trivial per block of 64", [&] {
        std::size_t f = tsan ? 1 : 2;
        vh::perturb::level() = 25;
        vh::guarded("latch", [&] { latch_rounds(vh::scale(10000, 150000) * f); });
        vh::guarded("crowd", [&] { latch_crowd(vh::scale(3000, 60000) * f, 3); });
        vh::guarded("atomic1", [&] { atomic_rounds(vh::scale(10000, 150000) * f, 1); });
        vh::guarded("atomic3", [&] { atomic_rounds(vh::scale(4000, 80000) * f, 3); });
        vh::guarded("counter", [&] { atomic_counter(vh::scale(2000, 40000)); });
        vh::perturb::level() = 0;
        vh::guarded("set", [&] { latch_sets(vh::scale(100, 2000)); });
        vh::event("perturbations", vh::perturb::hits());
    }, 40);
}
