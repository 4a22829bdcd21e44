// Helpers everything else builds on: arithmetic, random numbers, multisets, counters, backoff, scope end actions, file names, alignment.
#include "vh.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <numeric>
#include <thread>
#include <time.h>
#include <jogasaki/executor/batch/batch_executor_option.h>
#include <jogasaki/executor/diagnostic_record.h>
#include <jogasaki/scheduler/details/thread.h>
#include <jogasaki/scheduler/thread_local_info.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
#include <jogasaki/utils/backoff_timer.h>
#include <jogasaki/utils/backoff_waiter.h>
#include <jogasaki/utils/base_filename.h>
#include <jogasaki/utils/finally.h>
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/map_schema_name.h>
#include <jogasaki/utils/random.h>
#include <jogasaki/utils/round.h>
#include <jogasaki/utils/split_mix64.h>
#include <jogasaki/utils/subtract_vectors.h>
#include <jogasaki/utils/to_string.h>
#include <jogasaki/utils/use_counter.h>
#include <jogasaki/utils/variant.h>
using namespace vh;
namespace ut = jogasaki::utils;
namespace {
thread_local bool t_virtual = false;
thread_local std::int64_t t_now = 0;
thread_local std::vector<std::int64_t> t_sleeps;
}
extern "C" int __real_nanosleep(const timespec*, timespec*);
extern "C" int __wrap_nanosleep(const timespec* a, timespec* b) {
    if (!t_virtual) return __real_nanosleep(a, b);
    t_sleeps.push_back(static_cast<std::int64_t>(a->tv_sec) * 1000000000 + a->tv_nsec);
    return 0;
}
extern "C" std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
extern "C" std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
    if (!t_virtual) return __real__ZNSt6chrono3_V212system_clock3nowEv();
    return std::chrono::system_clock::time_point{std::chrono::nanoseconds{t_now}};
}
namespace {
void numbers(rng& r) {
    std::size_t v = r.edgy<std::size_t>();
    switch (r.below(5)) {
        case 0: v = (std::size_t{1} << r.below(64)) + r.below(3) - 1; break;
        case 1: v = r.below(2000); break;
        default: break;
    }
    bool p = v != 0 && __builtin_popcountll(v) == 1;
    VH_CHECK(ut::is_power_of_two(v) == p, "pow2.is", v);
    std::size_t down = v == 0 ? 0 : std::size_t{1} << (63 - __builtin_clzll(v));
    VH_CHECK(ut::round_down_to_power_of_two(v) == down, "pow2.down", v << " rounds down to " << ut::round_down_to_power_of_two(v));
    if (v <= (std::size_t{1} << 63)) {
        auto up = p || v == 0 ? v : down * 2;
        VH_CHECK(ut::round_up_to_power_of_two(v) == up, "pow2.up", v << " rounds up to " << ut::round_up_to_power_of_two(v));
    }
    nontrivial(v);
    // reference mixing functions
    std::uint64_t x = r.edgy<std::uint64_t>(), y = r.edgy<std::uint64_t>();
    VH_CHECK(ut::split_mix64(x) == mix(x), "mix", x);
    __uint128_t sum = static_cast<__uint128_t>(y) + 0x9e3779b9U + (x << 6) + (x >> 2);
    VH_CHECK(ut::hash_combine(x, y) == (x ^ static_cast<std::uint64_t>(sum)), "combine", x << "," << y);
}
void rnd(rng& r) {
    // Marsaglia's xorshift sequences
    auto s32 = r.edgy<std::uint32_t>();
    auto s64 = r.edgy<std::uint64_t>();
    std::uint32_t a = s32 ? s32 : 123456789;
    std::uint64_t b = s64 ? s64 : 88172645463325252ULL;
    ut::xorshift_random32 r32;
    ut::xorshift_random64 r64;
    auto refused = [](auto&& f) { try { f(); } catch (std::exception const&) { return true; } return false; };
    if (r.below(50) == 0) VH_CHECK(refused([&] { r32.seed(0); }) && refused([&] { r64.seed(0); }) && refused([] { ut::xorshift_random32 z(0); }) && refused([] { ut::xorshift_random64 z(0); }), "seed.zero", "a seed of zero was accepted");
    if (s32) { if (r.coin()) r32 = ut::xorshift_random32(s32); else r32.seed(s32); }
    if (s64) { if (r.coin()) r64 = ut::xorshift_random64(s64); else r64.seed(s64); }
    for (int i = 0; i < 50; ++i) {
        a ^= a << 13; a ^= a >> 17; a ^= a << 5;
        b ^= b << 13; b ^= b >> 7; b ^= b << 17;
        VH_CHECK(r32() == a, "xorshift32", "step " << i << " from " << s32);
        VH_CHECK(r64() == b, "xorshift64", "step " << i << " from " << s64);
        VH_CHECK(a != 0 && b != 0, "xorshift.zero", "stuck");
    }
    nontrivial(mix(s64) ^ s32);
}
template <class T, class G> void subtract(rng& r, G gen) {
    std::vector<T> x, y;
    for (auto n = r.below(12); n > 0; --n) x.push_back(gen());
    for (auto n = r.below(r.coin() ? 12 : 40); n > 0; --n) y.push_back(gen());
    if (r.coin(30)) for (auto& e : x) { y.push_back(e); if (r.coin(30)) y.push_back(e); }
    std::shuffle(y.begin(), y.end(), std::mt19937_64(r.next()));
    std::map<T, long> want;
    for (auto& e : x) ++want[e];
    for (auto& e : y) { auto it = want.find(e); if (it != want.end() && it->second > 0) --it->second; }
    auto got = ut::subtract_vectors(x, y);
    std::map<T, long> have;
    for (auto& e : got) ++have[e];
    for (auto& [k, c] : want) VH_CHECK(have[k] == c, "subtract", "an element remains " << have[k] << " times, not " << c);
    for (auto& [k, c] : have) VH_CHECK(want.count(k) && want[k] == c, "subtract", "an element appeared");
    nontrivial(mix(x.size() * 1000 + y.size()) ^ r.next() % 5000);
}
void counter(rng& r) {
    struct slot { std::unique_ptr<ut::use_counter> c; int group; };
    std::vector<slot> v;
    int groups = 0;
    std::string tr;
    auto size_of = [&](int g) { std::size_t n = 0; for (auto& s : v) n += s.group == g; return n; };
    for (auto n = 1 + r.below(40); n > 0; --n) {
        auto k = v.empty() ? 0 : r.below(v.size());
        auto j = v.empty() ? 0 : r.below(v.size());
        switch (v.empty() ? 0 : r.below(7)) {
            case 0: v.push_back({std::make_unique<ut::use_counter>(), groups++}); tr += "n"; break;
            case 1: v.push_back({std::make_unique<ut::use_counter>(*v[k].c), v[k].group}); tr += "c"; break;
            case 2: *v[k].c = *v[j].c; v[k].group = v[j].group; tr += "="; break;
            case 3: { auto m = std::make_unique<ut::use_counter>(std::move(*v[k].c)); auto g = v[k].group; v[k].group = groups++; v.push_back({std::move(m), g}); tr += "m"; break; }
            case 4: if (k != j) { *v[k].c = std::move(*v[j].c); v[k].group = v[j].group; v[j].group = groups++; tr += "M"; } break;
            case 5: v[k].c->reset(); v[k].group = groups++; tr += "r"; break;
            default: v.erase(v.begin() + static_cast<std::ptrdiff_t>(k)); tr += "d"; break;
        }
        for (auto& s : v) VH_CHECK(s.c->count() == size_of(s.group), "use_count", tr << " count " << s.c->count() << ", live copies " << size_of(s.group));
    }
    nontrivial(hash(tr));
}
void counter_parallel(rng& r) {
    ut::use_counter base;
    std::vector<std::thread> th;
    std::atomic<bool> low{false};
    for (int i = 0; i < 4; ++i) th.emplace_back([&, c = base, s = r.next()]() mutable {
        rng q(s);
        std::vector<ut::use_counter> own;
        for (int k = 0; k < 300; ++k) {
            if (own.empty() || q.coin()) own.push_back(c); else own.pop_back();
            if (c.count() < own.size() + 2) low = true;
        }
    });
    for (auto& t : th) t.join();
    th.clear();
    VH_CHECK(!low, "use_count.parallel", "fewer copies counted than alive");
    VH_CHECK(base.count() == 1, "use_count.parallel", base.count() << " after every copy is gone");
    event("counter_parallel");
}
void backoff(rng& r) {
    t_virtual = true;
    ut::finally over([] { t_virtual = false; });
    t_now = static_cast<std::int64_t>(r.below(1000000000000));
    std::size_t init = r.coin(10) ? 0 : 1 + r.below(r.coin() ? 1000 : 3000000000ULL);
    std::size_t max = r.coin(10) ? 0 : r.coin(20) ? r.below(init + 1) : init + r.below(r.coin() ? 20000 : 100000000000ULL);
    std::size_t cur = init;
    bool dflt = r.coin(10);
    if (dflt) { init = cur = 100000; max = 100000000; }
    std::string tr = std::to_string(init) + ".." + std::to_string(max) + ":";
    auto step = [&] { cur = std::min(cur * 2, max); };
    {
        t_sleeps.clear();
        auto w = dflt ? ut::backoff_waiter{} : ut::backoff_waiter{init, max};
        std::vector<std::int64_t> want;
        for (auto n = r.below(30); n > 0; --n) {
            if (r.coin(10)) { w.reset(); cur = init; tr += "r"; continue; }
            if (r.coin(5)) { auto c = w; w = c; }
            w();
            tr += "w";
            if (cur != 0 && init != 0) { want.push_back(static_cast<std::int64_t>(cur)); step(); }
        }
        std::ostringstream o;
        for (auto x : t_sleeps) o << x << " ";
        VH_CHECK(t_sleeps == want, "backoff.wait", tr << " slept " << o.str());
    }
    cur = init;
    auto tp = dflt ? std::make_unique<ut::backoff_timer>() : std::make_unique<ut::backoff_timer>(init, max);
    auto& t = *tp;
    auto begin = t_now;
    tr += "|";
    for (auto n = r.below(60); n > 0; --n) {
        switch (r.below(6)) {
            case 0: t_now += static_cast<std::int64_t>(cur - std::min<std::size_t>(cur, r.below(2))); break;
            case 1: t_now = begin + static_cast<std::int64_t>(cur) + static_cast<std::int64_t>(r.below(3)); break;
            case 2: t_now += static_cast<std::int64_t>(r.below(cur * 3 + 10)); break;
            case 3: if (r.coin(20)) { t.reset(); cur = init; begin = t_now; tr += "r"; } break;
            default: break;
        }
        bool want = cur == 0 || init == 0 || t_now - begin > static_cast<std::int64_t>(cur);
        bool got = t();
        VH_CHECK(got == want, "backoff.timer", tr << " says " << got << " " << t_now - begin << "ns after the start of a wait of " << cur);
        tr += got ? "+" : "-";
        if (got && cur != 0 && init != 0) { step(); begin = t_now; }
    }
    nontrivial(hash(tr));
    if (r.below(2000) == 0) sample(tr);
}
void scope(rng& r) {
    int n = 0;
    std::vector<int> order;
    int k = static_cast<int>(1 + r.below(5));
    std::function<void(int)> nest = [&](int d) {
        if (d == 0) { if (r.coin()) throw std::runtime_error("x"); return; }
        ut::finally f([&, d] { ++n; order.push_back(d); });
        VH_CHECK(n == 0, "finally.early", "ran before the end of the scope");
        nest(d - 1);
        VH_CHECK(order.size() == static_cast<std::size_t>(d - 1), "finally.order", "inner scope end did not run once");
    };
    try { nest(k); } catch (failure const&) { throw; } catch (std::exception const&) {}
    VH_CHECK(n == k, "finally.once", n << " of " << k);
    for (int i = 0; i < k; ++i) VH_CHECK(order[i] == i + 1, "finally.order", "outer before inner");
    nontrivial(hash("scope" + std::to_string(k)));
}
template <class T> void aligned_one(rng& r) {
    std::size_t a = std::size_t{1} << (3 + r.below(12));
    std::size_t n = r.below(r.coin() ? 300 : 70000);
    auto p = ut::make_aligned_array<T>(a, n);
    VH_CHECK(p && reinterpret_cast<std::uintptr_t>(p.get()) % a == 0, "aligned", a);
    std::memset(static_cast<void*>(p.get()), 7, n);   // the whole requested size is usable (address sanitizer watches)
    auto q = std::move(p);
    VH_CHECK(!p && q, "aligned.move", "");
}
void names(rng& r) {
    std::string p;
    for (auto n = r.below(6); n > 0; --n) { p += r.pick(std::vector<std::string>{"/", "a", "bc.cpp", ".", "..", "x y", "\\"}); if (r.coin()) p += "/"; }
    auto at = p.rfind('/');
    VH_CHECK(ut::basename_start(p.c_str()) == (at == std::string::npos ? 0 : at + 1), "basename", esc(p));
    auto s = r.pick(std::vector<std::string>{"public", "", "Public", "publi", "publics", "pg_catalog", "x"});
    if (r.coin()) s = r.bytes(r.below(8));
    auto m = ut::map_schema_name_to_storage_namespace(s);
    VH_CHECK(m == (s == "public" ? std::string_view{} : std::string_view{s}), "schema", esc(s) << " maps to " << esc(m));
    VH_CHECK(ut::to_string(static_cast<long>(r.range(-50, 50) * 0 + 17)) == "17" && ut::to_string(s) == s, "to_string", esc(s));
    nontrivial(hash(p + "|" + s));
}
struct X {}; 
void fixed() {
    using V = std::variant<std::monostate, int, std::string, double, X>;
    static_assert(jogasaki::alternative_index<std::monostate, V>() == 0 && jogasaki::alternative_index<X, V>() == 4 && jogasaki::alternative_index<std::string, V>() == 2 && jogasaki::alternative_index<double, V>() == 3);
    static_assert(jogasaki::alternative_index<float, V>() == static_cast<std::size_t>(-1));
    std::string here = base_filename();
    VH_EXPECT(here == "c20_helpers.cpp:" + std::to_string(__LINE__ - 1), "base_filename", here);
    using opt = jogasaki::executor::batch::batch_executor_option;
    opt d{};
    VH_EXPECT(d.max_concurrent_files() == opt::undefined && d.max_concurrent_blocks_per_file() == opt::undefined && !d.release_file_cb() && !d.release_block_cb(), "batch.default", "");
    int f = 0, b = 0;
    opt o{3, 5, [&](auto*) { ++f; }, [&](auto*) { ++b; }};
    auto o2 = o;
    auto o3 = std::move(o2);
    VH_EXPECT(o3.max_concurrent_files() == 3 && o3.max_concurrent_blocks_per_file() == 5, "batch.limits", "");
    o3.release_file_cb()(nullptr);
    VH_EXPECT(f == 1 && b == 0, "batch.callbacks", "file");
    o3.release_block_cb()(nullptr);
    VH_EXPECT(f == 1 && b == 1, "batch.callbacks", "block");
    opt o4{[&](auto*) { f += 10; }, [&](auto*) { b += 10; }};
    o4.release_file_cb()(nullptr);
    VH_EXPECT(f == 11 && b == 1 && o4.max_concurrent_files() == opt::undefined && o4.max_concurrent_blocks_per_file() == opt::undefined, "batch.callbacks", "only");
    o4.release_block_cb()(nullptr);
    VH_EXPECT(b == 11, "batch.callbacks", "only block");
    done(10);
}
void diag(rng& r) {
    jogasaki::executor::diagnostic_record<int> e{static_cast<int>(r.range(-9, 9)), r.bytes(r.below(9))};
    std::vector<std::string> args;
    for (auto n = r.below(4); n > 0; --n) {
        auto& a = e.new_argument();
        auto x = r.range(-1000, 1000);
        a << "v=" << x;
        args.push_back("v=" + std::to_string(x));
    }
    VH_CHECK(e.arguments().size() == args.size(), "diagnostic.args", "");
    std::string want = "diagnostic(code=" + std::to_string(e.code()) + ", message='" + e.message() + "'";
    if (!args.empty()) {
        want += ", args=[";
        for (std::size_t i = 0; i < args.size(); ++i) { VH_CHECK(e.arguments()[i].str() == args[i], "diagnostic.arg", args[i]); want += (i ? ", '" : "'") + args[i] + "'"; }
        want += "]";
    }
    want += ")";
    std::ostringstream o;
    o << e;
    VH_CHECK(o.str() == want, "diagnostic.print", esc(o.str()) << " expected " << esc(want));
}
void threads(rng& r) {
    namespace sc = jogasaki::scheduler;
    VH_CHECK(!sc::thread_local_info_.is_worker_thread() && sc::thread_local_info_.worker_index() == sc::thread_info::undefined, "thread_info.default", "");
    std::atomic<int> bad{0}, ran{0};
    std::size_t n = 1 + r.below(4);
    std::vector<std::unique_ptr<sc::details::thread>> th;
    for (std::size_t i = 0; i < n; ++i) {
        th.push_back(std::make_unique<sc::details::thread>());
        if (r.coin(20)) th.back()->allocate_randomly(r.below(3));
        VH_CHECK(th.back()->get() == nullptr, "thread.idle", "");
        (*th.back())([&, i] {
            if (sc::thread_local_info_.is_worker_thread()) ++bad;
            sc::thread_local_info_ = sc::thread_info{true, i};
            std::this_thread::yield();
            if (!sc::thread_local_info_.is_worker_thread() || sc::thread_local_info_.worker_index() != i) ++bad;
            ++ran;
        });
    }
    for (auto& t : th) { VH_CHECK(t->get() != nullptr, "thread.entity", ""); t->get()->join(); t->reset(); VH_CHECK(t->get() == nullptr, "thread.reset", ""); }
    VH_CHECK(bad == 0 && ran == static_cast<int>(n), "thread_info.local", "a worker saw another worker's identity");
    VH_CHECK(!sc::thread_local_info_.is_worker_thread(), "thread_info.local", "leaked to the main thread");
    event("worker_threads", n);
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c20_helpers", "edge-biased numbers, seeds, multisets, copy/move histories, wait histories under a virtual clock; distinct by value or history", [] {
        rng r(seed() * 31 + 20);
        fixed();
        for (std::size_t v = 0; v < 70000; ++v) {
            std::size_t down = v == 0 ? 0 : std::size_t{1} << (63 - __builtin_clzll(v));
            if (ut::round_down_to_power_of_two(v) != down || ut::is_power_of_two(v) != (v != 0 && down == v) || ut::round_up_to_power_of_two(v) != (down == v ? v : down * 2)) record_fail("pow2.small", std::to_string(v));
        }
        done(70000);
        for (std::size_t i = 0; i < scale(20000, 1000000); ++i) {
            guarded("numbers", [&] { numbers(r); });
            if (i % 4 == 0) guarded("random", [&] { rnd(r); });
            guarded("subtract", [&] { subtract<int>(r, [&] { return static_cast<int>(r.range(-3, 3)); }); });
            guarded("subtract", [&] { subtract<std::string>(r, [&] { return std::string(1, static_cast<char>('a' + r.below(4))); }); });
            guarded("counter", [&] { counter(r); });
            guarded("backoff", [&] { backoff(r); });
            if (i % 8 == 0) guarded("scope", [&] { scope(r); });
            if (i % 8 == 0) guarded("aligned", [&] { aligned_one<char>(r); aligned_one<double>(r); });
            guarded("names", [&] { names(r); });
            if (i % 8 == 0) guarded("diag", [&] { diag(r); });
            if (i % 200 == 0) { guarded("threads", [&] { threads(r); }); guarded("counter", [&] { counter_parallel(r); }); }
        }
    });
}
