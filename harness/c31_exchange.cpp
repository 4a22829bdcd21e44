// Forward and group exchanges: what the writers put in, the readers get exactly once, in the promised order and grouping.
#define EXCH_ENGINE
#include "exch.h"
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <glog/logging.h>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/exchange/forward/flow.h>
#include <jogasaki/executor/exchange/forward/forward_info.h>
#include <jogasaki/executor/exchange/forward/sink.h>
#include <jogasaki/executor/exchange/forward/source.h>
#include <jogasaki/executor/exchange/group/flow.h>
#include <jogasaki/executor/exchange/group/group_info.h>
#include <jogasaki/executor/exchange/group/input_partition.h>
#include <jogasaki/executor/exchange/group/priority_queue_reader.h>
#include <jogasaki/executor/exchange/group/sink.h>
#include <jogasaki/executor/exchange/group/sorted_vector_reader.h>
#include <jogasaki/executor/exchange/group/source.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/request_context.h>
using namespace jogasaki;
using namespace rec;
namespace xc = jogasaki::executor::exchange;
using executor::ordering;
using executor::io::group_reader;
using executor::io::record_reader;
using executor::io::record_writer;

// ---------------------------------------------------------------- forward
static void forward(vh::rng& g) {
    layout l(g, 1 + g.below(5));
    std::optional<std::size_t> limit{};
    if (g.coin(40)) limit = g.coin(20) ? 0 : g.below(60);
    auto info = std::make_shared<xc::forward::forward_info>(l.meta, limit);
    VH_CHECK(info->limit() == limit && info->record_meta().get() == l.meta.get(), "forward.info", "limit");
    request_context rctx{std::make_shared<configuration>()};
    xc::forward::flow fl{info, &rctx, nullptr};
    feeder fd(l);
    neighbour nb;
    struct chan { std::deque<row> q; bool active{true}, released{false}; record_reader* r{}; row last; bool have{false}; };
    std::vector<chan> ch;
    std::size_t written = 0, dropped = 0, n = 0;
    auto more = [&](std::size_t k) {
        fl.setup_partitions(k);
        for (std::size_t i = 0; i < k; ++i) ch.emplace_back();
        VH_CHECK(fl.sink_count() == ch.size() && fl.source_count() == ch.size(), "forward.partitions", fl.sink_count() << " sinks, " << fl.source_count() << " sources, expected " << ch.size());
    };
    more(1 + g.below(4));
    std::uint64_t h = 0;
    auto steps = 5 + g.below(300);
    for (std::size_t s = 0; s < steps + 400; ++s) {
        bool drain = s >= steps;
        if (!drain && !limit && ch.size() < 12 && g.coin(2)) more(1 + g.below(3));
        auto i = g.below(ch.size());
        auto& c = ch[i];
        auto what = drain ? 60 + g.below(40) : g.below(100);
        h = vh::mix(h ^ (what + 131 * i));
        if (what < 50 && c.active) {
            row v;
            for (std::size_t k = 0; k < l.f.size(); ++k) { v.push_back(rand_val(g, l.f[k])); }
            v[l.at].i = static_cast<std::int64_t>(n++);
            auto& w = fl.sink_at(i).acquire_writer();
            fd.write(v, [&](record_ref x) { w.write(x); });
            if (limit && written >= *limit) ++dropped;
            else { ++written; c.q.push_back(std::move(v)); }
            if (g.coin(10)) w.flush();
            vh::event("records forwarded");
        } else if (what < 53 && c.active) {
            if (g.coin(60)) { auto& w = fl.sink_at(i).acquire_writer(); w.flush(); w.release(); }
            else fl.sink_at(i).deactivate();
            c.active = false;
        } else if (what < 56) nb.act(g);
        else {
            if (!c.r) {
                auto rc = fl.source_at(i).acquire_reader();
                VH_CHECK(rc.kind() == executor::io::reader_kind::record && rc, "forward.reader", "reader kind");
                c.r = rc.reader<record_reader>();
            }
            if (g.coin(20) && c.have) {
                auto d = diff(l, read(c.r->get_record(), *l.meta, l), c.last);
                VH_CHECK(d.empty(), "forward.current", "the current record changed: " << d);
            }
            VH_CHECK(c.r->source_active() == c.active, "forward.active", "source_active is " << c.r->source_active() << ", the writer is " << (c.active ? "active" : "done"));
            VH_CHECK(c.r->available() == !c.q.empty(), "forward.available", c.r->available() << " with " << c.q.size() << " records pending");
            bool ok = c.r->next_record();
            VH_CHECK(ok == !c.q.empty(), "forward.count", (ok ? "a record too many" : "no record") << " with " << c.q.size() << " pending");
            if (ok) {
                auto d = diff(l, read(c.r->get_record(), *l.meta, l), c.q.front());
                VH_CHECK(d.empty(), "forward.record", l.str() << ": " << d);
                c.last = c.q.front();
                c.have = true;
                c.q.pop_front();
                vh::event("records received");
            } else {
                c.have = false;         // the last record is not kept once the reader asks for another
                if (!c.active) vh::event("ends seen");
            }
        }
    }
    for (std::size_t i = 0; i < ch.size(); ++i) {
        auto* r = ch[i].r ? ch[i].r : fl.source_at(i).acquire_reader().reader<record_reader>();
        while (r->next_record()) {
            VH_CHECK(!ch[i].q.empty(), "forward.count", "a record too many");
            auto d = diff(l, read(r->get_record(), *l.meta, l), ch[i].q.front());
            VH_CHECK(d.empty(), "forward.record", l.str() << ": " << d);
            ch[i].q.pop_front();
        }
        VH_CHECK(ch[i].q.empty(), "forward.count", ch[i].q.size() << " records lost");
        r->release();
    }
    if (limit) vh::event(dropped ? "limits reached" : "limits not reached");
    vh::nontrivial(h);
}
// writers and readers on their own threads, with more partitions added meanwhile
static void forward_threads(std::uint64_t seed, bool ts) {
    vh::rng g(seed);
    layout l(g, 1 + g.below(3));
    std::optional<std::size_t> limit{};
    if (g.coin(40)) limit = g.below(400);
    auto info = std::make_shared<xc::forward::forward_info>(l.meta, limit);
    request_context rctx{std::make_shared<configuration>()};
    xc::forward::flow fl{info, &rctx, nullptr};
    std::size_t per = 20 + g.below(ts ? 200 : 600);
    std::size_t first = 1 + g.below(3), total = limit ? first : first + g.below(3);
    std::vector<std::vector<row>> rows(total);
    for (std::size_t i = 0; i < total; ++i) for (std::size_t k = 0; k < per; ++k) {
        row v;
        for (auto const& f : l.f) v.push_back(rand_val(g, f));
        v[l.at].i = static_cast<std::int64_t>(i * 1000000 + k);
        rows[i].push_back(std::move(v));
    }
    std::vector<std::string> err(total * 2);
    std::vector<std::size_t> got(total);
    std::vector<std::thread> th;
    std::atomic<std::uint64_t> empties{0};
    auto start = [&](std::size_t i, std::uint64_t s) {
        auto fn_w = [&, i, s] {
            vh::rng r(s);
            try {
                feeder fd(l);
                auto& w = fl.sink_at(i).acquire_writer();
                for (auto const& v : rows[i]) {
                    fd.write(v, [&](record_ref x) { w.write(x); });
                    if (r.coin(5)) std::this_thread::yield();
                }
                w.flush();
                w.release();
            } catch (std::exception const& e) { err[i * 2] = e.what(); fl.sink_at(i).deactivate(); }
        };
        auto fn_r = [&, i, s] {
            vh::rng r(s + 1);
            try {
                auto* rd = fl.source_at(i).acquire_reader().reader<record_reader>();
                std::size_t k = 0;
                std::int64_t before = -1;
                for (;;) {
                    bool active = rd->source_active();       // asked first: false means that everything is there
                    if (r.coin(20)) (void) rd->available();
                    if (!rd->next_record()) {
                        if (!active) break;
                        empties.fetch_add(1);
                        std::this_thread::yield();
                        continue;
                    }
                    auto v = read(rd->get_record(), *l.meta, l);
                    auto no = v[l.at].i - static_cast<std::int64_t>(i * 1000000);
                    if (no <= before || no >= static_cast<std::int64_t>(per)) { err[i * 2 + 1] = "record number " + std::to_string(no) + " after " + std::to_string(before); break; }
                    if (!limit && no != before + 1) { err[i * 2 + 1] = "record " + std::to_string(no) + " after " + std::to_string(before); break; }
                    auto d = diff(l, v, rows[i][static_cast<std::size_t>(no)]);
                    if (!d.empty()) { err[i * 2 + 1] = d; break; }
                    before = no;
                    ++k;
                }
                got[i] = k;
            } catch (std::exception const& e) { err[i * 2 + 1] = e.what(); }
        };
        if (s % 2 == 0) { th.emplace_back(fn_w); th.emplace_back(fn_r); }
        else { th.emplace_back(fn_r); th.emplace_back(fn_w); }
    };
    fl.setup_partitions(first);
    for (std::size_t i = 0; i < first; ++i) start(i, g.next());
    if (total > first) {
        if (g.coin()) std::this_thread::yield();
        fl.setup_partitions(total - first);
        for (std::size_t i = first; i < total; ++i) start(i, g.next());
    }
    for (auto& t : th) t.join();
    std::size_t sum = 0;
    for (std::size_t i = 0; i < total; ++i) {
        VH_CHECK(err[i * 2].empty() && err[i * 2 + 1].empty(), "forward.threads", "partition " << i << ": " << err[i * 2] << err[i * 2 + 1]);
        if (!limit) VH_CHECK(got[i] == per, "forward.threads_count", got[i] << " of " << per << " records");
        sum += got[i];
    }
    if (limit) VH_CHECK(sum == std::min(*limit, per * total), "forward.threads_limit", sum << " records, limit " << *limit << ", written " << per * total);
    vh::event("records between threads", sum);
    vh::nontrivial(vh::mix(seed ^ empties.load()));
}

// ---------------------------------------------------------------- group
struct gspec {
    layout l;
    std::vector<std::size_t> keys, sort;
    std::vector<ordering> ord;
    std::optional<std::size_t> limit{};
    std::shared_ptr<xc::group::group_info> info;
    std::vector<row> rows;
    explicit gspec(vh::rng& g, std::size_t n, bool no_keys = false) : l(g, 1 + g.below(5)) {
        std::vector<std::size_t> idx;
        for (std::size_t i = 0; i < l.f.size(); ++i) if (i != l.at) idx.push_back(i);
        for (std::size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[g.below(i)]);
        std::size_t nk = no_keys ? 0 : g.coin(10) ? 0 : 1 + g.below(std::min<std::size_t>(idx.size(), 3));
        keys.assign(idx.begin(), idx.begin() + static_cast<std::ptrdiff_t>(nk));
        std::vector<std::size_t> left(idx.begin() + static_cast<std::ptrdiff_t>(nk), idx.end());
        left.push_back(l.at);
        if (g.coin(60)) for (auto i : left) if (sort.size() < 3 && g.coin(60)) {
            sort.push_back(i);
            ord.push_back(g.coin() ? ordering::ascending : ordering::descending);
        }
        if (g.coin(35)) limit = g.coin(15) ? 0 : g.below(6);
        info = std::make_shared<xc::group::group_info>(l.meta, keys, sort, ord, limit);
        std::vector<row> pool;
        for (std::size_t i = 0; i < 1 + g.below(g.coin() ? 4 : 60); ++i) {
            row v;
            for (std::size_t k = 0; k < l.f.size(); ++k) v.push_back(canonical(l.f[k], pool.empty() || g.coin(40) ? rand_val(g, l.f[k]) : near_val(g, l.f[k], pool[g.below(pool.size())][k])));
            pool.push_back(std::move(v));
        }
        for (std::size_t i = 0; i < n; ++i) {
            row v = pool[g.below(pool.size())];
            for (std::size_t k = 0; k < l.f.size(); ++k) if (g.coin(25)) v[k] = pool[g.below(pool.size())][k];
            for (std::size_t k = 0; k < l.f.size(); ++k) if ((l.f[k].k == kind::float4 || l.f[k].k == kind::float8) && !v[k].null && v[k].d == 0) v[k].d = g.coin() ? 0.0 : -0.0;
            v[l.at].null = false;
            v[l.at].i = static_cast<std::int64_t>(i);
            rows.push_back(std::move(v));
        }
    }
    int cmp_keys(row const& a, row const& b) const {
        for (auto k : keys) if (int c = compare(l.f[k], a[k], b[k]); c != 0) return c;
        return 0;
    }
    int cmp_sort(row const& a, row const& b) const {
        for (std::size_t i = 0; i < sort.size(); ++i) if (int c = compare(l.f[sort[i]], a[sort[i]], b[sort[i]]); c != 0) return ord[i] == ordering::descending ? -c : c;
        return 0;
    }
    std::string str() const {
        std::string s = l.str() + "keys";
        for (auto k : keys) s += " " + std::to_string(k);
        s += " sort";
        for (std::size_t i = 0; i < sort.size(); ++i) s += " " + std::to_string(sort[i]) + (ord[i] == ordering::descending ? "v" : "^");
        return s + (limit ? " limit " + std::to_string(*limit) : "");
    }
};
struct group_out { row key; std::vector<row> members; };
// reads every group of one reader
static std::vector<group_out> drain(gspec const& s, group_reader& r, std::string& err) {
    std::vector<group_out> out;
    auto const& gm = *s.info->group_meta();
    auto key_of = [&](record_ref x) { row v(s.l.f.size()); for (std::size_t i = 0; i < s.keys.size(); ++i) v[s.keys[i]] = get(x, gm.key(), i, s.l.f[s.keys[i]]); return v; };
    std::set<std::size_t> ks(s.keys.begin(), s.keys.end());
    while (r.next_group()) {
        group_out o;
        o.key = key_of(r.get_group());
        bool first = true;
        while (r.next_member()) {
            record_ref m = r.get_member();
            row v(s.l.f.size());
            std::size_t k = 0;
            for (std::size_t i = 0; i < s.l.f.size(); ++i) if (ks.count(i) == 0) v[i] = get(m, gm.value(), k++, s.l.f[i]);
            auto key = key_of(r.get_group());
            for (auto i : s.keys) v[i] = key[i];
            if (s.cmp_keys(v, o.key) != 0) err = "the key changed within a group";
            o.members.push_back(std::move(v));
            first = false;
        }
        if (first) err = "a group without members";
        out.push_back(std::move(o));
    }
    return out;
}
static void judge(gspec const& s, std::vector<std::vector<group_out>> const& outs, char const* how) {
    auto less = [&](row const& a, row const& b) { return s.cmp_keys(a, b) < 0; };
    std::map<row, std::vector<row const*>, decltype(less)> want(less);
    for (auto const& v : s.rows) want[v].push_back(&v);
    std::set<row, decltype(less)> seen(less);
    std::set<std::int64_t> ids;
    std::string S = std::string(how) + " " + s.str() + ", " + std::to_string(s.rows.size()) + " records";
    std::size_t ngroups = 0;
    for (auto const& o : outs) for (std::size_t i = 0; i < o.size(); ++i) {
        auto const& gr = o[i];
        if (i > 0) VH_CHECK(s.cmp_keys(o[i - 1].key, gr.key) < 0, "group.order", S << ": group " << s.l.str(gr.key) << " after " << s.l.str(o[i - 1].key));
        VH_CHECK(seen.insert(gr.key).second, "group.split", S << ": two groups of key " << s.l.str(gr.key));
        auto it = want.find(gr.key);
        VH_CHECK(it != want.end(), "group.unknown", S << ": no record has key " << s.l.str(gr.key));
        std::size_t n = s.limit ? std::min(*s.limit, it->second.size()) : it->second.size();
        VH_CHECK(gr.members.size() == n, "group.size", S << ": " << gr.members.size() << " members instead of " << n);
        auto sorted = it->second;
        std::stable_sort(sorted.begin(), sorted.end(), [&](row const* a, row const* b) { return s.cmp_sort(*a, *b) < 0; });
        for (std::size_t k = 0; k < n; ++k) {
            auto const& m = gr.members[k];
            auto id = m[s.l.at].i;
            VH_CHECK(id >= 0 && static_cast<std::size_t>(id) < s.rows.size(), "group.member", S << ": record " << id);
            auto d = diff(s.l, m, s.rows[static_cast<std::size_t>(id)]);
            VH_CHECK(d.empty(), "group.member", S << ": record " << id << " " << d);
            VH_CHECK(ids.insert(id).second, "group.twice", S << ": record " << id << " twice");
            VH_CHECK(s.cmp_sort(m, *sorted[k]) == 0, "group.sorted", S << ": member " << k << " of " << n << " is " << s.l.str(m) << " instead of " << s.l.str(*sorted[k]));
        }
        ++ngroups;
        vh::event("groups");
        vh::event("members", n);
        if (s.limit && n < it->second.size()) vh::event("groups cut by a limit");
    }
    std::size_t expect = s.limit && *s.limit == 0 ? 0 : want.size();
    VH_CHECK(ngroups == expect, "group.count", S << ": " << ngroups << " groups instead of " << expect);
    vh::nontrivial(vh::hash(S));
}
static std::shared_ptr<configuration> config(vh::rng& g, bool& sorted) {
    auto c = std::make_shared<configuration>();
    sorted = g.coin();
    c->use_sorted_vector(sorted);
    c->noop_pregroup(sorted && g.coin());
    return c;
}
static void group_flow(vh::rng& g) {
    gspec s(g, g.coin(8) ? 0 : g.below(g.coin(20) ? 800 : 60));
    bool sv{};
    request_context rctx{config(g, sv)};
    std::size_t down = 1 + g.below(5);
    xc::group::flow fl{s.info, &rctx, nullptr, down};
    fl.setup_partitions(1 + g.below(4));
    VH_CHECK(fl.source_count() == down, "group.sources", fl.source_count());
    feeder fd(s.l);
    neighbour nb;
    std::vector<record_writer*> w(fl.sink_count());
    for (std::size_t i = 0; i < s.rows.size(); ++i) {
        if (g.coin(1) && fl.sink_count() < 10) { auto n = fl.sink_count(), a = 1 + g.below(3); fl.setup_partitions(a); VH_CHECK(fl.sink_count() == n + a && fl.source_count() == down, "group.sinks", fl.sink_count() << " after adding " << a << " to " << n); w.resize(fl.sink_count()); }
        auto k = g.below(w.size());
        if (!w[k]) w[k] = &fl.sink_at(k).acquire_writer();
        fd.write(s.rows[i], [&](record_ref x) { w[k]->write(x); });
        if (g.coin(1)) w[k]->flush();
        if (g.coin(1)) nb.act(g);
    }
    for (std::size_t k = 0; k < w.size(); ++k) {
        if (!w[k] && g.coin()) { w[k] = &fl.sink_at(k).acquire_writer(); vh::event("writers without records"); }
        if (w[k]) { w[k]->flush(); w[k]->release(); }
        if (g.coin()) fl.sink_at(k).deactivate();
    }
    auto tasks = fl.create_tasks();
    VH_CHECK(tasks.size() == 1, "group.tasks", tasks.size());
    VH_CHECK(fl.info().empty_input() == s.rows.empty(), "group.empty", "empty_input " << fl.info().empty_input() << " after " << s.rows.size() << " records");
    nb.act(g);
    std::vector<std::vector<group_out>> outs;
    for (std::size_t i = 0; i < down; ++i) {
        auto rc = fl.source_at(i).acquire_reader();
        VH_CHECK(rc.kind() == executor::io::reader_kind::group, "group.reader", "reader kind");
        std::string err;
        outs.push_back(drain(s, *rc.reader<group_reader>(), err));
        VH_CHECK(err.empty(), "group.read", s.str() << ": " << err);
        rc.release();
        nb.act(g);
    }
    judge(s, outs, sv ? "sorted_vector" : "priority_queue");
    vh::event("group exchanges");
}
// the partitions and readers on their own, with tables small enough to be filled many times
static void group_runs(vh::rng& g) {
    gspec s(g, g.below(g.coin(20) ? 600 : 80));
    bool sv{};
    request_context rctx{config(g, sv)};
    std::vector<std::unique_ptr<xc::group::input_partition>> parts;
    feeder fd(s.l);
    auto mr = [] { return std::make_unique<jmem::monotonic_paged_memory_resource>(&global::page_pool()); };
    for (std::size_t i = 0; i < 1 + g.below(4); ++i) {
        if (g.coin(15)) { parts.emplace_back(); continue; }
        parts.emplace_back(std::make_unique<xc::group::input_partition>(mr(), mr(), mr(), s.info, &rctx, 1 + g.below(g.coin() ? 4 : 40)));
    }
    std::vector<std::size_t> live;
    for (std::size_t i = 0; i < parts.size(); ++i) if (parts[i]) live.push_back(i);
    if (live.empty()) return;
    std::size_t runs = 0;
    for (auto const& v : s.rows) {
        auto k = live[g.below(live.size())];
        fd.write(v, [&](record_ref x) { if (parts[k]->write(x)) ++runs; });
        if (g.coin(3)) parts[k]->flush();
    }
    for (auto k : live) parts[k]->flush();
    std::vector<std::vector<group_out>> outs;
    std::string err;
    if (sv) { xc::group::sorted_vector_reader r{s.info, parts}; outs.push_back(drain(s, r, err)); }
    else { xc::group::priority_queue_reader r{s.info, parts}; outs.push_back(drain(s, r, err)); }
    VH_CHECK(err.empty(), "group.read", s.str() << ": " << err);
    judge(s, outs, sv ? "sorted_vector" : "priority_queue");
    vh::event("pointer tables filled", runs);
}
static void group_threads(std::uint64_t seed, bool ts) {
    vh::rng g(seed);
    gspec s(g, 50 + g.below(ts ? 300 : 1500));
    bool sv{};
    request_context rctx{config(g, sv)};
    std::size_t down = 1 + g.below(4), writers = 2 + g.below(3), first = 1 + g.below(writers);
    xc::group::flow fl{s.info, &rctx, nullptr, down};
    std::vector<std::vector<row const*>> part(writers);
    for (auto const& v : s.rows) part[g.below(writers)].push_back(&v);
    std::vector<std::thread> th;
    std::vector<std::string> err(std::max(writers, down));
    auto start = [&](std::size_t i) {
        th.emplace_back([&, i] {
            try {
                feeder fd(s.l);
                for (auto const* v : part[i]) { auto& w = fl.sink_at(i).acquire_writer(); fd.write(*v, [&](record_ref x) { w.write(x); }); }
                auto& w = fl.sink_at(i).acquire_writer();
                w.flush();
                w.release();
            } catch (std::exception const& e) { err[i] = e.what(); }
        });
    };
    fl.setup_partitions(first);
    for (std::size_t i = 0; i < first; ++i) start(i);
    if (writers > first) { fl.setup_partitions(writers - first); for (std::size_t i = first; i < writers; ++i) start(i); }
    for (auto& t : th) t.join();
    for (auto const& e : err) VH_CHECK(e.empty(), "group.threads", e);
    (void) fl.create_tasks();
    th.clear();
    std::vector<std::vector<group_out>> outs(down);
    for (std::size_t i = 0; i < down; ++i) th.emplace_back([&, i] {
        try {
            auto rc = fl.source_at(i).acquire_reader();
            outs[i] = drain(s, *rc.reader<group_reader>(), err[i]);
            rc.release();
        } catch (std::exception const& e) { err[i] = e.what(); }
    });
    for (auto& t : th) t.join();
    for (auto const& e : err) VH_CHECK(e.empty(), "group.threads", e);
    judge(s, outs, sv ? "threads sorted_vector" : "threads priority_queue");
    vh::event("group exchanges between threads");
}
// a partition large enough for its pointer table of the ordinary size to fill up
static void group_large(vh::rng& g, bool sv) {
    fdesc k; k.k = kind::int4; k.nullable = false;
    fdesc v; v.k = kind::int8; v.nullable = false;
    auto meta = make_meta({k, v});
    auto info = std::make_shared<xc::group::group_info>(meta, std::vector<std::size_t>{0}, std::vector<std::size_t>{1}, std::vector<ordering>{ordering::descending});
    auto c = std::make_shared<configuration>();
    c->use_sorted_vector(sv);
    request_context rctx{c};
    xc::group::flow fl{info, &rctx, nullptr, 1};
    fl.setup_partitions(1);
    auto& w = fl.sink_at(0).acquire_writer();
    std::size_t n = xc::group::input_partition::ptr_table_size + 1 + g.below(100000);
    record r(*meta);
    std::int64_t sum = 0;
    for (std::size_t i = 0; i < n; ++i) {
        val a; a.null = false; a.i = static_cast<std::int64_t>(g.below(1000));
        val b; b.null = false; b.i = static_cast<std::int64_t>(g.below(1U << 30U));
        put(r.ref, *meta, 0, k, a, nullptr);
        put(r.ref, *meta, 1, v, b, nullptr);
        sum += b.i * (a.i + 1);
        w.write(r.ref);
    }
    w.flush();
    w.release();
    (void) fl.create_tasks();
    auto rc = fl.source_at(0).acquire_reader();
    auto* rd = rc.reader<group_reader>();
    std::size_t got = 0;
    std::int64_t key = -1;
    while (rd->next_group()) {
        auto kk = get(rd->get_group(), info->group_meta()->key(), 0, k).i;
        VH_CHECK(kk > key, "group.large", "key " << kk << " after " << key);
        key = kk;
        std::int64_t last = INT64_MAX;
        while (rd->next_member()) {
            auto x = get(rd->get_member(), info->group_meta()->value(), 0, v).i;
            VH_CHECK(x <= last, "group.large", x << " after " << last);
            last = x;
            sum -= x * (kk + 1);
            ++got;
        }
    }
    VH_CHECK(got == n && sum == 0, "group.large", got << " of " << n << " records, checksum off by " << sum);
    vh::event("records in one partition", n);
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    bool ts = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c31_exchange", "histories of writes, reads and partition additions per forward exchange; record sets, keys, sort orders and limits per group exchange; distinct by history", [ts] {
        vh::rng r(vh::seed() * 71 + 31);
        if (!ts) {
            for (std::size_t i = 0; i < vh::scale(150, 4000); ++i) vh::guarded("forward", [&] { forward(r); });
            for (std::size_t i = 0; i < vh::scale(500, 10000); ++i) {
                vh::guarded("group", [&] { group_flow(r); });
                vh::guarded("group_runs", [&] { group_runs(r); });
            }
            for (bool sv : {false, true}) vh::guarded("group_large", [&] { group_large(r, sv); });
        }
        for (std::size_t i = 0; i < vh::scale(ts ? 20 : 30, 400); ++i) {
            vh::guarded("forward_threads", [&] { forward_threads(r.next(), ts); });
            vh::guarded("group_threads", [&] { group_threads(r.next(), ts); });
        }
    });
}
