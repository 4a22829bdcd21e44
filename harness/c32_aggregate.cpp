// Aggregation: one record per group with exactly the value each function has over the records of the group.
#define EXCH_ENGINE
#include "exch.h"
#include "sqlval.h"
#include <map>
#include <mutex>
#include <set>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <glog/logging.h>
#include <yugawara/aggregate/configurable_provider.h>
#include <jogasaki/configuration.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/executor/exchange/aggregate/aggregate_info.h>
#include <jogasaki/executor/exchange/aggregate/flow.h>
#include <jogasaki/executor/exchange/aggregate/input_partition.h>
#include <jogasaki/executor/exchange/aggregate/reader.h>
#include <jogasaki/executor/exchange/aggregate/sink.h>
#include <jogasaki/executor/exchange/aggregate/source.h>
#include <jogasaki/executor/function/aggregate_function_info.h>
#include <jogasaki/executor/function/builtin_functions.h>
#include <jogasaki/executor/function/incremental/builtin_functions.h>
#include <jogasaki/executor/function/field_locator.h>
#include <jogasaki/executor/io/group_reader.h>
#include <jogasaki/executor/io/record_writer.h>
#include <jogasaki/executor/expr/details/decimal_context.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/request_context.h>
namespace xa = jogasaki::executor::exchange::aggregate;
namespace fn = jogasaki::executor::function;
using executor::io::group_reader;
using executor::io::record_writer;

// ---------------------------------------------------------------- functions
struct function {
    std::string name;
    fn::incremental::aggregate_function_info const* info{};
    kind arg{kind::undefined};      // undefined: no argument
    kind ret{};
};
static kind plain_kind(takatori::type::data const& t) {
    using tk = takatori::type::type_kind;
    switch (t.kind()) {
        case tk::boolean: return kind::boolean;
        case tk::int4: return kind::int4;
        case tk::int8: return kind::int8;
        case tk::float4: return kind::float4;
        case tk::float8: return kind::float8;
        case tk::decimal: return kind::decimal;
        case tk::character: return kind::character;
        case tk::octet: return kind::octet;
        case tk::date: return kind::date;
        case tk::time_of_day: return static_cast<takatori::type::time_of_day const&>(t).with_time_zone() ? kind::undefined : kind::time_of_day;
        case tk::time_point: return static_cast<takatori::type::time_point const&>(t).with_time_zone() ? kind::undefined : kind::time_point;
        default: return kind::undefined;
    }
}
static yugawara::aggregate::configurable_provider& provider() { static yugawara::aggregate::configurable_provider p; return p; }
static std::vector<function> const& functions() {
    static std::vector<function> v = [] {
        fn::incremental::add_builtin_aggregate_functions(provider(), global::incremental_aggregate_function_repository());
        std::vector<function> r;
        for (auto const& d : provider().list()) {
            if (!d->incremental()) continue;
            function f{d->name(), global::incremental_aggregate_function_repository().find(d->definition_id()), kind::undefined, plain_kind(d->return_type())};
            VH_CHECK(f.info != nullptr, "aggregate.repository", d->name() << " is declared without an implementation");
            if (d->parameter_types().size() > 1 || f.ret == kind::undefined) continue;
            if (d->parameter_types().size() == 1) {
                f.arg = plain_kind(d->parameter_types()[0]);
                if (f.arg == kind::undefined) continue;
            }
            r.push_back(f);
        }
        return r;
    }();
    return v;
}
// ---------------------------------------------------------------- model
// the value over the given records; nothing when rounding or overflow leave it open
static std::optional<val> model_value(function const& a, fdesc const& f, std::vector<val> const& all, std::size_t rows) {
    val v;
    v.null = false;
    if (a.arg == kind::undefined) { v.i = static_cast<std::int64_t>(rows); return v; }
    std::vector<val> xs;
    for (auto& x : all) if (!x.null) xs.push_back(x);
    if (a.name == "count") { v.i = static_cast<std::int64_t>(xs.size()); return v; }
    if (xs.empty()) return val{};
    bool max = a.name == "max", avg = a.name == "avg";
    if (max || a.name == "min") {
        v = xs[0];
        for (auto& x : xs) { int d = compare(f, x, v); if (max ? d > 0 : d < 0) v = x; }
        return v;
    }
    if (!avg && a.name != "sum") return std::nullopt;
    switch (f.k) {
        case kind::int4: case kind::int8: {
            mpz_class s{0}, m{0}, lim = mpz_class(1) << (f.k == kind::int4 ? 31 : 63);
            for (auto& x : xs) { s += mpz_class(static_cast<long>(x.i)); m += abs(mpz_class(static_cast<long>(x.i))); }
            if (m >= lim) return std::nullopt;
            if (avg) { if (a.ret != f.k) return std::nullopt; s = s / static_cast<long>(xs.size()); }
            v.i = s.get_si();
            return v;
        }
        case kind::float4: case kind::float8: {
            double s = 0, m = 0;
            for (auto& x : xs) { if (!(std::abs(x.d) <= 1000) || std::floor(x.d * 4) != x.d * 4) return std::nullopt; s += x.d; m += std::abs(x.d); }
            if (m > 1000000) return std::nullopt;
            v.d = s;
            if (avg) v.d = f.k == kind::float4 ? static_cast<double>(static_cast<float>(s) / static_cast<float>(xs.size())) : s / static_cast<double>(xs.size());
            return v;
        }
        case kind::decimal: {
            sv::D s{0, 0};
            for (auto& x : xs) { auto t = sv::d_of(x.t); sv::align(s, t); s.c += t.c; if (sv::digits(s.c) > 30) return std::nullopt; }
            auto r = sv::fin(s);
            if (avg) r = sv::d_div(s, {mpz_class(static_cast<long>(xs.size())), 0});
            if (!r.ok()) return std::nullopt;
            return r.v;
        }
        default: return std::nullopt;
    }
}
static val tame(vh::rng& g, fdesc const& f, val v) {      // values whose sums are exact
    if (v.null) return v;
    if (f.k == kind::float4 || f.k == kind::float8) v.d = static_cast<double>(g.range(-400, 400)) / 4;
    else if (f.k == kind::int4) v.i = g.range(-100000, 100000);
    else if (f.k == kind::int8) v.i = g.range(-1000000000000LL, 1000000000000LL);
    else if (f.k == kind::decimal) v.t = make_triple(mpz_class(static_cast<long>(g.range(-1000000000LL, 1000000000LL))), -static_cast<std::int32_t>(g.below(6)));
    return v;
}
struct aspec {
    layout l;
    std::vector<std::size_t> keys;
    struct use { function const* f; std::size_t arg; };
    std::vector<use> uses;
    std::vector<row> rows;
    bool on_empty{};
    std::shared_ptr<xa::aggregate_info> info;
    aspec(vh::rng& g, std::size_t n) : l(g, 1 + g.below(5)) {
        for (auto& d : l.f) d.nullable = true;      // as in every plan
        l.meta = make_meta(l.f);
        for (std::size_t i = 0; i < l.f.size(); ++i) if (i != l.at && keys.size() < 3 && g.coin(40)) keys.push_back(i);
        for (std::size_t i = keys.size(); i > 1; --i) std::swap(keys[i - 1], keys[g.below(i)]);
        on_empty = keys.empty() && g.coin(70);
        std::vector<xa::aggregate_info::value_spec> specs;
        std::size_t want = 1 + g.below(5);
        for (int t = 0; t < 100 && uses.size() < want; ++t) {
            auto const& f = g.pick(functions());
            std::vector<std::size_t> have;
            for (std::size_t i = 0; i < l.f.size(); ++i) if (l.f[i].k == f.arg) have.push_back(i);
            if (f.arg != kind::undefined && have.empty()) continue;
            std::size_t at = have.empty() ? 0 : g.pick(have);
            uses.push_back({&f, at});
            specs.emplace_back(*f.info, f.arg == kind::undefined ? std::vector<std::size_t>{} : std::vector<std::size_t>{at}, make_field(ret_desc(uses.back())));
        }
        info = std::make_shared<xa::aggregate_info>(l.meta, keys, specs, on_empty);
        bool tamed = g.coin(60);
        std::vector<row> pool;
        for (std::size_t i = 0; i < 1 + g.below(g.coin() ? 4 : 60); ++i) {
            row v;
            for (std::size_t k = 0; k < l.f.size(); ++k) v.push_back(canonical(l.f[k], pool.empty() || g.coin(40) ? rand_val(g, l.f[k]) : near_val(g, l.f[k], pool[g.below(pool.size())][k])));
            pool.push_back(std::move(v));
        }
        std::set<std::size_t> ks(keys.begin(), keys.end());
        for (std::size_t i = 0; i < n; ++i) {
            row v = pool[g.below(pool.size())];
            for (std::size_t k = 0; k < l.f.size(); ++k) {
                if (g.coin(25)) v[k] = pool[g.below(pool.size())][k];
                if (ks.count(k) == 0 && tamed) v[k] = tame(g, l.f[k], v[k]);
                if ((l.f[k].k == kind::float4 || l.f[k].k == kind::float8) && !v[k].null && v[k].d == 0) v[k].d = g.coin() ? 0.0 : -0.0;
            }
            v[l.at].null = false;
            v[l.at].i = static_cast<std::int64_t>(g.below(1000000));
            rows.push_back(std::move(v));
        }
    }
    fdesc ret_desc(use const& u) const {
        fdesc d;
        if (u.f->arg != kind::undefined && u.f->ret == l.f[u.arg].k) d = l.f[u.arg];
        d.k = u.f->ret;
        d.nullable = true;
        return d;
    }
    static jm::field_type make_field(fdesc const& d) { return make_meta({d})->at(0); }
    int cmp(row const& a, row const& b) const {
        for (auto k : keys) if (int c = compare(l.f[k], a[k], b[k]); c != 0) return c;
        return 0;
    }
    std::string str() const {
        std::string s = l.str() + "keys";
        for (auto k : keys) s += " " + std::to_string(k);
        for (auto& u : uses) s += " " + u.f->name + (u.f->arg == kind::undefined ? "(*)" : "(" + std::to_string(u.arg) + ")");
        return s;
    }
    // keeps only the functions whose value is determined for every group
};
struct agg_out { row key; row vals; };
static std::vector<agg_out> drain(aspec const& s, group_reader& r, std::string& err) {
    std::vector<agg_out> out;
    auto const& gm = *s.info->post().group_meta();
    while (r.next_group()) {
        agg_out o;
        record_ref k = r.get_group();
        o.key.resize(s.l.f.size());
        for (std::size_t i = 0; i < s.keys.size(); ++i) o.key[s.keys[i]] = get(k, gm.key(), i, s.l.f[s.keys[i]]);
        std::size_t n = 0;
        while (r.next_member()) {
            record_ref m = r.get_member();
            for (std::size_t i = 0; i < s.uses.size(); ++i) o.vals.push_back(get(m, gm.value(), i, s.ret_desc(s.uses[i])));
            ++n;
        }
        if (n != 1) err = "a group of " + std::to_string(n) + " members";
        out.push_back(std::move(o));
    }
    return out;
}
static void judge(aspec const& s, std::vector<std::vector<agg_out>> const& outs, char const* how) {
    auto less = [&](row const& a, row const& b) { return s.cmp(a, b) < 0; };
    std::map<row, std::vector<row const*>, decltype(less)> want(less);
    for (auto const& v : s.rows) want[v].push_back(&v);
    std::string S = std::string(how) + " " + s.str() + ", " + std::to_string(s.rows.size()) + " records";
    std::set<row, decltype(less)> seen(less);
    std::size_t n = 0;
    if (s.rows.empty() && s.on_empty) want[row(s.l.f.size())];
    for (auto const& o : outs) for (std::size_t i = 0; i < o.size(); ++i) {
        ++n;
        if (i > 0) VH_CHECK(s.cmp(o[i - 1].key, o[i].key) < 0, "aggregate.order", S << ": group " << s.l.str(o[i].key) << " after " << s.l.str(o[i - 1].key));
        auto it = want.find(o[i].key);
        VH_CHECK(it != want.end(), "aggregate.unknown", S << ": no record has key " << s.l.str(o[i].key));
        VH_CHECK(seen.insert(o[i].key).second, "aggregate.split", S << ": two results for key " << s.l.str(o[i].key));
        for (std::size_t k = 0; k < s.uses.size(); ++k) {
            auto const& u = s.uses[k];
            std::vector<val> xs;
            if (u.f->arg != kind::undefined) for (auto* r : it->second) xs.push_back((*r)[u.arg]);
            auto d = s.ret_desc(u);
            auto w = model_value(*u.f, s.l.f[u.arg], xs, it->second.size());
            if (!w) { vh::event("values left open"); continue; }
            bool ok = o[i].vals[k].null == w->null && (w->null || compare(d, o[i].vals[k], *w) == 0);
            VH_CHECK(ok, "aggregate." + u.f->name, S << ": function " << k << " over " << it->second.size() << " records is " << o[i].vals[k].str(d) << " instead of " << w->str(d));
            vh::event("f:" + u.f->name + (w->null ? " null" : ""));
        }
    }
    VH_CHECK(n == want.size(), "aggregate.count", S << ": " << n << " groups instead of " << want.size());
    vh::event("groups", n);
    vh::nontrivial(vh::hash(S));
}
// sums of large integers are not defined: leave them out (the finding aggregate.sum_overflow)
static bool safe(aspec const& s) {
    for (auto& u : s.uses) if (u.f->name == "sum" || u.f->name == "avg") {
        mpz_class m{0};
        auto k = s.l.f[u.arg].k;
        for (auto& r : s.rows) if (!r[u.arg].null && (k == kind::int4 || k == kind::int8)) m += abs(mpz_class(static_cast<long>(r[u.arg].i)));
        if (m >= (mpz_class(1) << (k == kind::int4 ? 31 : 63))) return false;
        if (k == kind::decimal) {
            sv::D t{0, 0};
            for (auto& r : s.rows) if (!r[u.arg].null) { auto d = sv::d_of(r[u.arg].t); if (std::abs(d.e) > 60) return false; d.c = abs(d.c); sv::align(t, d); t.c += d.c; if (sv::digits(t.c) > 36) return false; }
        }
    }
    return true;
}
static std::unique_ptr<jmem::monotonic_paged_memory_resource> mr() { return std::make_unique<jmem::monotonic_paged_memory_resource>(&global::page_pool()); }

static void agg_flow(vh::rng& g) {
    aspec s(g, g.coin(12) ? 0 : g.below(g.coin(20) ? 800 : 60));
    if (!safe(s)) return;
    request_context rctx{std::make_shared<configuration>()};
    std::size_t down = 1 + g.below(5);
    xa::flow fl{s.info, &rctx, nullptr, down};
    fl.setup_partitions(1 + g.below(4));
    VH_CHECK(fl.source_count() == down, "aggregate.sources", fl.source_count());
    feeder fd(s.l);
    neighbour nb;
    std::vector<record_writer*> w(fl.sink_count());
    for (std::size_t i = 0; i < s.rows.size(); ++i) {
        auto k = g.below(w.size());
        if (!w[k]) w[k] = &fl.sink_at(k).acquire_writer();
        fd.write(s.rows[i], [&](record_ref x) { w[k]->write(x); });
        if (g.coin(2)) w[k]->flush();
        if (g.coin(1)) nb.act(g);
    }
    for (std::size_t k = 0; k < w.size(); ++k) {
        if (!w[k] && g.coin()) { w[k] = &fl.sink_at(k).acquire_writer(); vh::event("writers without records"); }
        if (w[k]) { w[k]->flush(); w[k]->release(); }
        if (g.coin()) fl.sink_at(k).deactivate();
    }
    auto tasks = fl.create_tasks();
    VH_CHECK(tasks.size() == 1, "aggregate.tasks", tasks.size());
    VH_CHECK(fl.info().empty_input() == (s.rows.empty() && !s.on_empty), "aggregate.empty", "empty_input " << fl.info().empty_input() << " after " << s.rows.size() << " records");
    std::vector<std::vector<agg_out>> outs;
    for (std::size_t i = 0; i < down; ++i) {
        nb.act(g);
        auto rc = fl.source_at(i).acquire_reader();
        VH_CHECK(rc.kind() == executor::io::reader_kind::group, "aggregate.reader", "reader kind");
        std::string err;
        outs.push_back(drain(s, *rc.reader<group_reader>(), err));
        VH_CHECK(err.empty(), "aggregate.read", s.str() << ": " << err);
        rc.release();
    }
    judge(s, outs, "flow");
}
// partitions and readers on their own, with hash tables small enough to be flushed often
static void agg_parts(vh::rng& g) {
    aspec s(g, g.below(g.coin(20) ? 600 : 80));
    if (!safe(s)) return;
    std::vector<std::unique_ptr<xa::input_partition>> parts;
    std::vector<std::size_t> live;
    for (std::size_t i = 0; i < 1 + g.below(4); ++i) {
        if (g.coin(15)) { parts.emplace_back(); continue; }
        live.push_back(i);
        parts.emplace_back(std::make_unique<xa::input_partition>(mr(), mr(), mr(), mr(), mr(), s.info, std::size_t{1} << (1 + g.below(7)), 1000));
    }
    if (live.empty()) return;
    feeder fd(s.l);
    std::size_t flushed = 0;
    for (auto const& v : s.rows) {
        auto k = live[g.below(live.size())];
        fd.write(v, [&](record_ref x) { if (parts[k]->write(x)) ++flushed; });
        if (g.coin(2)) parts[k]->flush();
    }
    bool empty = s.rows.empty() && s.on_empty;
    if (empty) parts[live[0]]->aggregate_empty_input();
    for (auto k : live) parts[k]->flush();
    if (g.coin()) for (auto k : live) parts[k]->release_hashtable();
    xa::reader r{s.info, parts};
    std::string err;
    std::vector<std::vector<agg_out>> outs{drain(s, r, err)};
    VH_CHECK(err.empty(), "aggregate.read", s.str() << ": " << err);
    judge(s, outs, "partitions");
    vh::event("hash tables filled", flushed);
}
static void agg_threads(std::uint64_t seed, bool ts) {
    vh::rng g(seed);
    aspec s(g, 50 + g.below(ts ? 300 : 1500));
    if (!safe(s)) return;
    request_context rctx{std::make_shared<configuration>()};
    std::size_t down = 1 + g.below(4), writers = 2 + g.below(3);
    xa::flow fl{s.info, &rctx, nullptr, down};
    fl.setup_partitions(writers);
    std::vector<std::vector<row const*>> part(writers);
    for (auto const& v : s.rows) part[g.below(writers)].push_back(&v);
    std::vector<std::thread> th;
    std::vector<std::string> err(std::max(writers, down));
    for (std::size_t i = 0; i < writers; ++i) th.emplace_back([&, i] {
        try {
            executor::expr::details::ensure_decimal_context();
            feeder fd(s.l);
            auto& w = fl.sink_at(i).acquire_writer();
            for (auto const* v : part[i]) fd.write(*v, [&](record_ref x) { w.write(x); });
            w.flush();
            w.release();
        } catch (std::exception const& e) { err[i] = e.what(); }
    });
    for (auto& t : th) t.join();
    for (auto const& e : err) VH_CHECK(e.empty(), "aggregate.threads", e);
    (void) fl.create_tasks();
    th.clear();
    std::vector<std::vector<agg_out>> outs(down);
    for (std::size_t i = 0; i < down; ++i) th.emplace_back([&, i] {
        try {
            executor::expr::details::ensure_decimal_context();
            auto rc = fl.source_at(i).acquire_reader();
            outs[i] = drain(s, *rc.reader<group_reader>(), err[i]);
            rc.release();
        } catch (std::exception const& e) { err[i] = e.what(); }
    });
    for (auto& t : th) t.join();
    for (auto const& e : err) VH_CHECK(e.empty(), "aggregate.threads", e);
    judge(s, outs, "threads");
    vh::event("between threads");
}
static function const& find(std::string const& name, kind arg) {
    for (auto const& f : functions()) if (f.name == name && f.arg == arg) return f;
    vh::fail("aggregate.repository", name + " is missing");
    throw std::runtime_error("no function " + name);
}
// more groups than one hash table holds, with keys whose hashes collide when `step` is a power of two
static void agg_large(vh::rng& g, std::int64_t step, std::size_t groups, bool twice) {
    fdesc k; k.k = kind::int8; k.nullable = true;
    fdesc v; v.k = kind::int8; v.nullable = true;
    auto meta = make_meta({k, v});
    std::vector<xa::aggregate_info::value_spec> specs;
    specs.emplace_back(*find("sum", kind::int8).info, std::vector<std::size_t>{1}, aspec::make_field(v));
    specs.emplace_back(*find("count", kind::undefined).info, std::vector<std::size_t>{}, aspec::make_field(v));
    auto info = std::make_shared<xa::aggregate_info>(meta, std::vector<std::size_t>{0}, specs);
    request_context rctx{std::make_shared<configuration>()};
    xa::flow fl{info, &rctx, nullptr, 1};
    fl.setup_partitions(1);
    auto& w = fl.sink_at(0).acquire_writer();
    record r(*meta);
    auto start = g.range(-1000, 1000);
    auto put_one = [&](std::size_t i, std::int64_t x) {
        val a; a.null = false; a.i = start + static_cast<std::int64_t>(i) * step;
        val b; b.null = false; b.i = x;
        put(r.ref, *meta, 0, k, a, nullptr);
        put(r.ref, *meta, 1, v, b, nullptr);
        w.write(r.ref);
    };
    for (std::size_t i = 0; i < groups; ++i) put_one(i, static_cast<std::int64_t>(i));
    if (twice) for (std::size_t i = 0; i < groups; ++i) put_one(i, 1000000);
    w.flush();
    w.release();
    (void) fl.create_tasks();
    auto rc = fl.source_at(0).acquire_reader();
    auto* rd = rc.reader<group_reader>();
    auto const& gm = *info->post().group_meta();
    std::size_t n = 0;
    while (rd->next_group()) {
        auto key = get(rd->get_group(), gm.key(), 0, k).i;
        VH_CHECK(key == start + static_cast<std::int64_t>(n) * step, "aggregate.large", "group " << n << " of step " << step << " has key " << key);
        VH_CHECK(rd->next_member(), "aggregate.large", "no member");
        auto m = rd->get_member();
        fdesc o = v; o.nullable = true;
        auto sum = get(m, gm.value(), 0, o), cnt = get(m, gm.value(), 1, o);
        VH_CHECK(!sum.null && sum.i == static_cast<std::int64_t>(n) + (twice ? 1000000 : 0) && !cnt.null && cnt.i == (twice ? 2 : 1), "aggregate.large", "group " << n << ": sum " << sum.i << " count " << cnt.i);
        VH_CHECK(!rd->next_member(), "aggregate.large", "a second member");
        ++n;
    }
    rc.release();
    VH_CHECK(n == groups, "aggregate.large", n << " groups instead of " << groups << " with step " << step);
    vh::event("large aggregations");
    vh::nontrivial(vh::hash("large" + std::to_string(step) + "/" + std::to_string(groups)));
}
// ---------------------------------------------------------------- COUNT(DISTINCT x)
template <class F> static void typed(kind k, F&& f) {
    switch (k) {
        case kind::boolean: f(std::int8_t{}); break;
        case kind::int4: f(std::int32_t{}); break;
        case kind::int8: f(std::int64_t{}); break;
        case kind::float4: f(float{}); break;
        case kind::float8: f(double{}); break;
        case kind::decimal: f(runtime_t<kind::decimal>{}); break;
        case kind::character: f(accessor::text{}); break;
        case kind::octet: f(accessor::binary{}); break;
        case kind::date: f(runtime_t<kind::date>{}); break;
        case kind::time_of_day: f(runtime_t<kind::time_of_day>{}); break;
        case kind::time_point: f(runtime_t<kind::time_point>{}); break;
        default: break;
    }
}
static void count_distinct(vh::rng& g, std::size_t n, std::size_t different) {
    fdesc f = rand_desc(g, plain_kinds());
    f.nullable = true;
    while (different > 10000 && f.k == kind::boolean) f.k = g.pick(std::vector<kind>{kind::int4, kind::int8, kind::float8, kind::time_point});
    if (f.len) f.len = 1 + g.below(60);
    fdesc res; res.k = kind::int8; res.nullable = true;
    auto meta = make_meta({f}), out = make_meta({res});
    auto values = mr(), varlen = mr(), nulls = mr();
    data::value_store store{meta->at(0), values.get(), varlen.get(), nulls.get()};
    heap_resource heap{};
    record r(*meta);
    auto less = [&](val const& a, val const& b) { return compare(f, a, b) < 0; };
    std::set<val, decltype(less)> seen(less);
    std::vector<val> pool;
    for (std::size_t i = 0; i < n; ++i) {
        val v;
        v = pool.size() < different ? canonical(f, pool.empty() || g.coin(70) ? rand_val(g, f) : near_val(g, f, g.pick(pool))) : g.pick(pool);
        if (pool.size() < different && !v.null) pool.push_back(v);
        else if (pool.empty()) v = val{};
        if ((f.k == kind::float4 || f.k == kind::float8) && !v.null && v.d == 0) v.d = g.coin() ? 0.0 : -0.0;
        put(r.ref, *meta, 0, f, v, &heap);
        if (v.null) store.append_null();
        else {
            seen.insert(v);
            typed(f.k, [&](auto t) { using T = decltype(t); store.append<T>(r.ref.get_value<T>(meta->value_offset(0))); });
        }
        heap.clear();
    }
    record o(*out, 0x5a);
    fn::field_locator loc{out->at(0), true, out->value_offset(0), out->nullity_offset(0)};
    std::vector<std::reference_wrapper<data::value_store>> args{store};
    fn::builtin::count_distinct(o.ref, loc, takatori::util::sequence_view<std::reference_wrapper<data::value_store> const>{args});
    auto got = get(o.ref, *out, 0, res);
    VH_CHECK(!got.null && got.i == static_cast<std::int64_t>(seen.size()), "aggregate.count_distinct", "over " << n << " values of " << f.str() << ": " << got.i << " instead of " << seen.size());
    vh::event("f:count distinct");
    vh::nontrivial(vh::hash("distinct" + f.str() + std::to_string(seen.size())));
}
// ---------------------------------------------------------------- overflow (a known finding)
static void sum_overflow(kind k, char const* name, std::int64_t top) {
    int p[2];
    if (pipe(p) != 0) return;
    auto pid = fork();
    if (pid == 0) {
        close(p[0]);
        alarm(60);
        close(2);
        fdesc v; v.k = k; v.nullable = true;
        auto meta = make_meta({v});
        std::vector<xa::aggregate_info::value_spec> specs;
        specs.emplace_back(*find(name, k).info, std::vector<std::size_t>{0}, aspec::make_field(v));
        auto info = std::make_shared<xa::aggregate_info>(meta, std::vector<std::size_t>{}, specs);
        auto part = std::make_unique<xa::input_partition>(mr(), mr(), mr(), mr(), mr(), info);
        record r(*meta);
        val x; x.null = false; x.i = top;
        put(r.ref, *meta, 0, v, x, nullptr);
        try { (void) part->write(r.ref); (void) part->write(r.ref); } catch (...) { _exit(7); }      // an error is fine
        (void) ! write(p[1], "x", 1);
        _exit(0);
    }
    close(p[1]);
    char c{};
    auto n = read(p[0], &c, 1);
    close(p[0]);
    int st{};
    waitpid(pid, &st, 0);
    bool error = WIFEXITED(st) && WEXITSTATUS(st) == 7;
    vh::event("overflow probes");
    if (!error) vh::fail("aggregate.sum_overflow", std::string(name) + " of two values " + std::to_string(top) + (n == 1 ? " gives a value" : " is undefined behaviour") + " instead of an error");
}

static bool tsan = false;
static void body() {
    vh::guarded("aggregate.repository", [] { (void) functions(); });
    auto n = vh::scale(tsan ? 20 : 40, tsan ? 400 : 1000);
    if (!tsan) {
        for (std::size_t i = 0; i < n * 40; ++i) {
            vh::rng g(vh::seed() * 1000003 + i);
            vh::guarded("aggregate.flow", [&] { agg_flow(g); });
            vh::guarded("aggregate.partitions", [&] { agg_parts(g); });
            vh::guarded("aggregate.count_distinct", [&] { count_distinct(g, g.below(80), 1 + g.below(30)); });
        }
        vh::rng g(vh::seed() * 77 + 5);
        vh::guarded("aggregate.large", [&] { agg_large(g, 1, 60000 + g.below(50000), true); });
        vh::guarded("aggregate.large", [&] { agg_large(g, 65536, 8000 + g.below(1000), true); });
        vh::guarded("aggregate.large", [&] { agg_large(g, std::int64_t{1} << 22, 7000, false); });
        for (int i = 0; i < 6; ++i) vh::guarded("aggregate.count_distinct", [&] { count_distinct(g, 80000 + g.below(50000), 100000); });
        vh::guarded("aggregate.sum_overflow", [&] { sum_overflow(kind::int4, "sum", INT32_MAX); });
        vh::guarded("aggregate.sum_overflow", [&] { sum_overflow(kind::int8, "sum", INT64_MIN); });
        vh::guarded("aggregate.sum_overflow", [&] { sum_overflow(kind::int4, "avg", INT32_MIN); });
    }
    for (std::size_t i = 0; i < n; ++i) vh::guarded("aggregate.threads", [&] { agg_threads(vh::seed() * 7919 + i, tsan); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string(argv[1]) == "tsan";
    executor::expr::details::ensure_decimal_context();
    return vh::main(argc, argv, "c32_aggregate", "aggregations of distinct layout, functions and size whose values were all compared", body);
}
