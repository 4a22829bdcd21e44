// Harness support: seeded randomness, oracle failures, coverage accounting, watchdog.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <thread>
#include <type_traits>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline std::uint64_t mix(std::uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed) : s(mix(seed)) {}
    std::uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        return mix(s);
    }
    // [0, n)
    std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
    // [a, b]
    std::int64_t range(std::int64_t a, std::int64_t b) {
        return static_cast<std::int64_t>(static_cast<std::uint64_t>(a) + below(static_cast<std::uint64_t>(b) - static_cast<std::uint64_t>(a) + 1));
    }
    bool coin(unsigned percent = 50) { return below(100) < percent; }
    template <class C> auto const& pick(C const& c) { return c[below(c.size())]; }
    std::string bytes(std::size_t n) {
        std::string r(n, '\0');
        for (auto& c : r) c = static_cast<char>(next() >> 13);
        return r;
    }
    // integers which love the edges
    template <class T> T edgy() {
        using L = std::numeric_limits<T>;
        switch (below(8)) {
            case 0: return L::min();
            case 1: return L::max();
            case 2: return static_cast<T>(0);
            case 3: return static_cast<T>(static_cast<T>(below(5)) - static_cast<T>(std::is_signed_v<T> ? 2 : 0));
            case 4: return static_cast<T>(static_cast<T>(1) << below(sizeof(T) * 8 - 1));
            default: return static_cast<T>(next());
        }
    }
};

inline std::uint64_t hash(std::string_view s, std::uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}
inline std::string esc(std::string_view s, std::size_t max = 200) {
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (r.size() > max) { r += "..."; break; }
        if (c == '\\') { r += "\\\\"; }
        else if (c >= 0x20 && c < 0x7f) { r += static_cast<char>(c); }
        else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}

struct failure : std::exception {};

struct state {
    std::mutex m;
    std::string name, rule, out;
    std::uint64_t seed{1};
    bool thorough{false};
    std::vector<std::pair<std::string, std::string>> fails;
    std::vector<std::string> known;
    std::set<std::string> reported;
    std::atomic<std::uint64_t> evals{0};
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::uint64_t> events;
    std::atomic<std::uint64_t> beat{0};
    std::atomic<bool> finished{false};
    std::atomic<bool> failed{false};
    std::function<std::string()> on_hang;
    std::string phase;
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
};
inline state& st() {
    static state* s = new state();
    return *s;
}
inline std::string jstr(std::string_view s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}
inline void write_out() {
    auto& s = st();
    if (s.out.empty()) return;
    std::ofstream o(s.out + ".tmp");
    o << "{\"evaluations\":" << s.evals.load() << ",\"distinct_nontrivial\":" << s.distinct.size()
      << ",\"rule\":" << jstr(s.rule) << ",\"samples\":[";
    for (std::size_t i = 0; i < s.samples.size(); ++i) o << (i ? "," : "") << jstr(s.samples[i]);
    o << "],\"events\":{";
    bool f = true;
    for (auto& [k, v] : s.events) { o << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
    o << "},\"failures\":[";
    for (std::size_t i = 0; i < s.fails.size(); ++i)
        o << (i ? "," : "") << "{\"key\":" << jstr(s.fails[i].first) << ",\"msg\":" << jstr(s.fails[i].second) << "}";
    o << "]}\n";
    o.close();
    std::rename((s.out + ".tmp").c_str(), s.out.c_str());
}
inline bool thorough() { return st().thorough; }
inline std::uint64_t seed() { return st().seed; }
inline std::size_t scale(std::size_t quick, std::size_t th) { return thorough() ? th : quick; }
inline void beat() { st().beat.fetch_add(1, std::memory_order_relaxed); }
inline bool is_known(std::string const& key) {
    for (auto& k : st().known) if (k == key) return true;
    return false;
}
inline void record_fail(std::string const& key, std::string const& msg) {
    auto& s = st();
    std::lock_guard lk(s.m);
    if (s.reported.count(key) != 0 && is_known(key)) return;
    s.reported.insert(key);
    s.fails.emplace_back(key, msg);
    std::cout << "FAIL " << key << ": " << msg << std::endl;
    if (!is_known(key)) s.failed = true;
    std::size_t unknown = 0;
    for (auto& f : s.fails) if (!is_known(f.first)) ++unknown;
    if (unknown >= 8) {
        write_out();
        _exit(1);
    }
}
// record and leave the case
[[noreturn]] inline void fail(std::string const& key, std::string const& msg) {
    record_fail(key, msg);
    throw failure{};
}
inline void done(std::uint64_t n = 1) { st().evals.fetch_add(n, std::memory_order_relaxed); beat(); }
inline void nontrivial(std::uint64_t h) {
    auto& s = st();
    std::lock_guard lk(s.m);
    if (s.distinct.size() < 4000000) s.distinct.insert(h);
}
inline void event(std::string const& k, std::uint64_t n = 1) {
    auto& s = st();
    std::lock_guard lk(s.m);
    s.events[k] += n;
}
inline void sample(std::string const& v, std::size_t max = 6) {
    auto& s = st();
    std::lock_guard lk(s.m);
    if (s.samples.size() < max) s.samples.push_back(v);
}
inline void phase(std::string p) {
    auto& s = st();
    std::lock_guard lk(s.m);
    s.phase = std::move(p);
}

#define VH_CHECK(cond, key, msg)                                   \
    do {                                                           \
        if (!(cond)) {                                             \
            std::ostringstream vh_os_;                             \
            vh_os_ << msg;                                         \
            vh::fail(key, vh_os_.str() + "  [" #cond "]");         \
        }                                                          \
    } while (0)
#define VH_EXPECT(cond, key, msg)                                  \
    do {                                                           \
        if (!(cond)) {                                             \
            std::ostringstream vh_os_;                             \
            vh_os_ << msg;                                         \
            vh::record_fail(key, vh_os_.str() + "  [" #cond "]");  \
        }                                                          \
    } while (0)

// run one generated case; an escaped exception is a failure of the case
template <class F> void guarded(std::string const& key, F&& f) {
    try {
        f();
    } catch (failure const&) {
    } catch (std::exception const& e) {
        record_fail(key + ".exception", std::string("unexpected exception: ") + e.what());
    }
    done();
}

inline int main(int argc, char** argv, std::string name, std::string rule, std::function<void()> body, int hang_s = 90) {
    auto& s = st();
    s.name = std::move(name);
    s.rule = std::move(rule);
    if (auto* p = std::getenv("VERIF_SEED")) s.seed = std::strtoull(p, nullptr, 10);
    if (auto* p = std::getenv("VERIF_TIER")) s.thorough = std::string_view(p) == "thorough";
    if (auto* p = std::getenv("VH_OUT")) s.out = p;
    if (auto* p = std::getenv("VH_KNOWN")) {
        std::istringstream is(p);
        for (std::string l; std::getline(is, l);) if (!l.empty()) s.known.push_back(l);
    }
    std::thread([hang_s] {
        auto& s = st();
        std::uint64_t last = ~0ULL;
        int idle = 0;
        while (!s.finished) {
            std::this_thread::sleep_for(std::chrono::seconds(1));
            auto b = s.beat.load();
            if (b == last) ++idle; else idle = 0;
            last = b;
            if (idle >= hang_s && !s.finished) {
                std::string what = s.on_hang ? s.on_hang() : std::string{};
                std::string ph;
                { std::lock_guard lk(s.m); ph = s.phase; }
                record_fail("hang", "no progress for " + std::to_string(hang_s) + "s in phase '" + ph + "' " + what);
                write_out();
                _exit(1);
            }
        }
    }).detach();
    try {
        body();
    } catch (failure const&) {
    } catch (std::exception const& e) {
        record_fail("exception", std::string("unexpected exception: ") + e.what());
    }
    s.finished = true;
    if (s.evals == 0 && s.fails.empty()) {
        std::cout << "nothing was evaluated" << std::endl;
        std::fflush(nullptr);
        _exit(3);
    }
    write_out();
    std::fflush(nullptr);
    return s.failed ? 1 : 0;
}

}  // namespace vh
