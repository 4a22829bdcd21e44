// Time points of named places in the code, per worker, under a clock the harness controls.
#include "vh.h"
#include <chrono>
#include <memory>
#include <array>
#include <algorithm>
#include <optional>
#include <jogasaki/utils/watch.h>
#include <jogasaki/utils/performance_tools.h>
using namespace vh;
using jogasaki::utils::watch;
namespace {
std::atomic<bool> g_virtual{false};
std::atomic<std::int64_t> g_now{1};
using tp = std::chrono::steady_clock::time_point;
}
extern "C" tp __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" tp __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
    if (!g_virtual.load()) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
    return tp{std::chrono::nanoseconds{g_now.fetch_add(1)}};
}
namespace {
std::size_t ms(tp b, tp e) { return static_cast<std::size_t>(std::chrono::duration_cast<std::chrono::milliseconds>(e - b).count()); }
struct model {
    std::map<std::size_t, std::map<std::size_t, tp>> rec;
    tp begin{};
    tp first(std::size_t l) {
        if (l == watch::npos) return begin;
        std::optional<tp> r;
        for (auto& [w, m] : rec) if (m.count(l)) r = r ? std::min(*r, m[l]) : m[l];
        return r.value_or(tp{});
    }
    tp last(std::size_t l) {
        if (l == watch::npos) return begin;
        std::optional<tp> r;
        for (auto& [w, m] : rec) if (m.count(l)) r = r ? std::max(*r, m[l]) : m[l];
        return r.value_or(tp{});
    }
    // spans of every worker which passed begin or end; the missing side comes from the others
    std::vector<std::int64_t> spans(std::size_t b, std::size_t e) {
        std::vector<std::int64_t> v;
        for (auto& [w, m] : rec) {
            if (!m.count(b) && !m.count(e)) continue;
            tp x = m.count(b) ? m[b] : first(b), y = m.count(e) ? m[e] : last(e);
            v.push_back(static_cast<std::int64_t>(ms(x, y)));
        }
        return v;
    }
};
void one(rng& r, bool global) {
    jogasaki::utils::get_watch();
    g_now = static_cast<std::int64_t>(1 + r.below(1000000000));
    std::unique_ptr<watch> own;
    watch* w;
    std::int64_t t = g_now;
    if (global) { w = &jogasaki::utils::get_watch(); w->restart(); } else { own = std::make_unique<watch>(); w = own.get(); }
    model m;
    m.begin = tp{std::chrono::nanoseconds{t}};
    VH_CHECK(w->base() == m.begin, "base", "start time");
    std::size_t nw = 1 + r.below(r.coin(10) ? 60 : 5), n = r.below(80);
    std::string log;
    auto worker = [&](std::size_t i) { return i == 0 ? static_cast<std::size_t>(-1) : i * 7919; };
    for (std::size_t i = 0; i < n; ++i) {
        static const std::int64_t steps[] = {1, 1000, 999999, 1000000, 5000000, 1000000000, 3600LL * 1000000000};
        g_now += static_cast<std::int64_t>(r.below(static_cast<std::uint64_t>(steps[r.below(7)])));
        auto op = r.below(100);
        if (op < 60) {
            std::size_t l = r.below(watch::num_points), k = worker(r.below(nw));
            auto now = tp{std::chrono::nanoseconds{g_now.load()}};
            bool fresh = m.rec[k].count(l) == 0;
            bool got = k == static_cast<std::size_t>(-1) && r.coin() ? w->set_point(l) : w->set_point(l, k);
            VH_CHECK(got == fresh, "set.result", "returned " << got << " for a point " << (fresh ? "not yet" : "already") << " set");
            if (fresh) m.rec[k][l] = now;
            log += std::to_string(l) + (fresh ? "+" : "=");
        } else if (op < 62) {
            t = g_now;
            w->restart();
            m.rec.clear();
            m.begin = tp{std::chrono::nanoseconds{t}};
            log += "R";
            VH_CHECK(w->base() == m.begin, "restart.base", "start time after restart");
        } else {
            std::size_t b = r.coin(15) ? watch::npos : r.below(watch::num_points), e = r.below(watch::num_points);
            VH_CHECK(w->view_first(b) == m.first(b), "view_first", "point " << b);
            VH_CHECK(w->view_last(b) == m.last(b), "view_last", "point " << b);
            VH_CHECK(w->view_first(e) == m.first(e) && w->view_last(e) == m.last(e), "view", "point " << e);
            if (m.first(b) == tp{} || m.first(e) == tp{}) continue;
            VH_CHECK(w->duration(b, e) == ms(m.first(b), m.last(e)), "duration", "points " << b << "," << e << " got " << w->duration(b, e));
            VH_CHECK(w->duration(b, e, true) == ms(m.last(b), m.first(e)), "duration.complementary", "points " << b << "," << e);
            if (b == watch::npos) continue;
            auto sp = m.spans(b, e);
            auto d = w->durations(b, e);
            std::vector<std::int64_t> got(d->begin(), d->end());
            auto ref = sp;
            std::sort(got.begin(), got.end());
            std::sort(ref.begin(), ref.end());
            VH_CHECK(got == ref, "durations", "points " << b << "," << e << ": " << got.size() << " spans, expected " << ref.size());
            bool pos = true;
            std::int64_t sum = 0;
            for (auto x : sp) { pos &= x >= 0; sum += x; }
            if (pos && !sp.empty()) {
                VH_CHECK(w->average_duration(b, e) == static_cast<std::size_t>(sum) / sp.size(), "average", "points " << b << "," << e << " got " << w->average_duration(b, e));
                auto tx = jogasaki::utils::textualize(*w, b, e, "lbl");
                auto want = "lbl: total " + std::to_string(ms(m.first(b), m.last(e))) + "ms, average " + std::to_string(static_cast<std::size_t>(sum) / sp.size()) + "ms";
                VH_CHECK(tx == want, "textualize", tx);
            }
            event("span_queries");
        }
    }
    if (!m.rec.empty()) nontrivial(hash(log));
    if (r.below(5000) == 0) sample(log);
}
void parallel(rng& r) {
    watch w;
    std::size_t T = 2 + r.below(6);
    std::size_t nw = 1 + r.below(4);
    std::vector<std::vector<std::array<std::int64_t, 4>>> won(T);
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < T; ++i) th.emplace_back([&, i, s = r.next()] {
        rng q(s);
        ++go;
        while (go < static_cast<int>(T)) {}
        for (int k = 0; k < 60; ++k) {
            std::size_t l = q.below(watch::num_points), x = q.below(nw);
            auto a = g_now.load();
            bool ok = w.set_point(l, x);
            auto b = g_now.load();
            if (ok) won[i].push_back({static_cast<std::int64_t>(x), static_cast<std::int64_t>(l), a, b});
        }
    });
    for (auto& t : th) t.join();
    std::map<std::pair<std::int64_t, std::int64_t>, std::array<std::int64_t, 2>> seen;
    for (auto& v : won) for (auto& x : v) {
        VH_CHECK(seen.count({x[0], x[1]}) == 0, "parallel.once", "worker " << x[0] << " point " << x[1] << " was claimed as newly set twice");
        seen[{x[0], x[1]}] = {x[2], x[3]};
    }
    std::string h;
    for (std::size_t l = 0; l < watch::num_points; ++l) {
        std::int64_t flo = INT64_MAX, fhi = INT64_MAX, llo = -1, lhi = -1;
        for (auto& [k, v] : seen) if (k.second == static_cast<std::int64_t>(l)) {
            flo = std::min(flo, v[0]); fhi = std::min(fhi, v[1]); llo = std::max(llo, v[0]); lhi = std::max(lhi, v[1]);
        }
        auto f = w.view_first(l).time_since_epoch().count(), e = w.view_last(l).time_since_epoch().count();
        if (lhi < 0) { VH_CHECK(f == 0 && e == 0, "parallel.unset", "point " << l << " never set has a time"); continue; }
        VH_CHECK(flo <= f && f <= fhi, "parallel.first", "point " << l << ": " << f << " not in [" << flo << "," << fhi << "]");
        VH_CHECK(llo <= e && e <= lhi, "parallel.last", "point " << l << ": " << e << " not in [" << llo << "," << lhi << "]");
        h += std::to_string(f) + ",";
    }
    for (auto& v : won) h += std::to_string(v.size()) + ";";
    nontrivial(hash(h));
    event("points_won", seen.size());
}
}
int main(int argc, char** argv) {
    bool ts = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c12_watch", "histories of set/view/duration/restart over workers and points under a virtual clock, and concurrent setters; distinct by history", [ts] {
        rng r(seed() * 29 + 12);
        g_virtual = true;
        if (!ts) for (std::size_t i = 0; i < scale(20000, 400000); ++i) guarded("history", [&] { one(r, r.coin(20)); });
        for (std::size_t i = 0; i < scale(ts ? 250 : 400, 5000); ++i) guarded("parallel", [&] { parallel(r); });
        g_virtual = false;
    });
}
