// Row counters and durations reported for a request; record counts of a result channel.
#include "vh.h"
#include <chrono>
#include <optional>
#include <jogasaki/executor/io/record_channel_stats.h>
#include <jogasaki/request_statistics.h>
using namespace vh;
using namespace jogasaki;
namespace {
void history(rng& r) {
    request_statistics s;
    std::map<int, std::optional<std::int64_t>> ref;
    using C = request_statistics::clock;
    C::time_point a{}, b{};
    std::string h;
    auto same = [&](request_statistics const& x) {
        std::map<int, std::int64_t> got;
        x.each_counter([&](counter_kind k, request_execution_counter const& c) {
            VH_EXPECT(c.has_value() && c.count().has_value(), "each.value", "a counter never counted was reported");
            VH_EXPECT(got.emplace(k, *c.count()).second, "each.once", "kind " << k << " reported twice");
        });
        std::map<int, std::int64_t> want;
        for (auto& [k, v] : ref) if (v) want[k] = *v;
        VH_CHECK(got == want, "each.values", "reported " << got.size() << " counters, expected " << want.size());
        VH_CHECK(x.duration<std::chrono::nanoseconds>() == b - a, "duration", "nanoseconds");
        VH_CHECK(x.duration<std::chrono::milliseconds>() == std::chrono::duration_cast<std::chrono::milliseconds>(b - a), "duration", "milliseconds");
    };
    for (auto n = r.below(40); n > 0; --n) {
        auto k = static_cast<counter_kind>(r.below(6));
        switch (r.below(8)) {
            case 0: s.counter(k); ref[k]; break;
            case 1: case 2: case 3: {
                auto v = r.coin(20) ? 0 : r.coin(40) ? r.range(-5, 5) : r.range(-1000000000000, 1000000000000);
                s.counter(k).count(v);
                ref[k] = ref[k].value_or(0) + v;
                break;
            }
            case 4: {
                auto& c = s.counter(k);
                ref[k];
                VH_EXPECT(c.has_value() == ref[k].has_value() && c.count() == ref[k], "counter", "kind " << k);
                break;
            }
            case 5: a = C::time_point{C::duration{r.range(-4000000000, 4000000000LL * 1000)}}; s.start_time(a); break;
            case 6: b = C::time_point{C::duration{r.range(-4000000000, 4000000000LL * 1000)}}; s.end_time(b); break;
            case 7: { auto c = s; same(c); if (r.coin()) s = std::move(c); break; }
        }
        h += std::to_string(k);
    }
    same(s);
    for (auto& [k, v] : ref) if (v) h += ":" + std::to_string(*v);
    nontrivial(hash(h));
    if (r.below(8000) == 0) sample(h);
}
void parallel(rng& r) {
    executor::io::record_channel_stats st;
    VH_CHECK(st.total_record_count() == 0, "channel.initial", "");
    std::size_t base = r.below(1000);
    st.total_record_count(base);
    std::size_t T = 2 + r.below(6);
    std::vector<std::uint64_t> sum(T);
    std::vector<std::thread> th;
    std::atomic<bool> stop{false};
    std::atomic<int> go{0};
    std::atomic<bool> mono{true};
    std::thread reader([&] { std::size_t last = 0; while (!stop) { auto v = st.total_record_count(); if (v < last) mono = false; last = v; } });
    for (std::size_t i = 0; i < T; ++i) th.emplace_back([&, i, s = r.next()] {
        rng q(s);
        ++go;
        while (go < static_cast<int>(T)) {}
        for (int k = 0; k < 300; ++k) { auto v = q.below(5); st.add_total_record(v); sum[i] += v; }
    });
    for (auto& t : th) t.join();
    stop = true;
    reader.join();
    std::size_t all = base;
    for (auto v : sum) all += v;
    VH_CHECK(st.total_record_count() == all, "channel.total", st.total_record_count() << " records counted, " << all << " added");
    VH_CHECK(mono, "channel.monotonic", "the count went down while only adding");
    nontrivial(mix(all) ^ T);
    event("adds", T * 300);
}
}
int main(int argc, char** argv) {
    bool ts = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c17_stats", "histories of counts over kinds, copies and times; concurrent adders on a channel; distinct by history", [ts] {
        rng r(seed() * 47 + 17);
        static const char* names[] = {"undefined", "inserted", "updated", "merged", "deleted", "fetched"};
        for (int i = 0; i < 6; ++i) guarded("name", [&] { std::ostringstream os; os << static_cast<counter_kind>(i); VH_CHECK(os.str() == names[i], "kind.name", os.str()); });
        if (!ts) for (std::size_t i = 0; i < scale(30000, 600000); ++i) guarded("history", [&] { history(r); });
        for (std::size_t i = 0; i < scale(ts ? 200 : 400, 5000); ++i) guarded("parallel", [&] { parallel(r); });
    });
}
