// Queries through the real database, compiler of plans, scheduler and operators against a reference evaluator.
#include "sqlgen.h"
#include <glog/logging.h>
using namespace sg;

static std::string show_kinds(std::vector<kind> const& k) { std::string s; for (auto x : k) s += std::string{jogasaki::meta::to_string_view(x)} + " "; return s; }
static void configure(engine& e, vh::rng& r) {
    auto& c = *e.cfg;
    c.use_sorted_vector(r.coin());
    c.scan_block_size(r.coin() ? 1 + r.below(5) : 100);
    c.scan_yield_interval(r.coin() ? 0 : 1);
    c.inplace_dag_schedule(r.coin());
    c.inplace_teardown(r.coin());
    c.stealing_enabled(r.coin(70));
    if (r.coin(30)) c.enable_hybrid_scheduler(r.coin());
    c.normalize_float(r.coin());
    if (r.coin(25)) c.key_distribution(jogasaki::key_distribution_kind::simple);
    if (getenv("V")) std::cerr << "config " << c << std::endl;
}
static void database_case(std::uint64_t seed, std::size_t queries, bool threads, std::size_t rows) {
    vh::rng r{seed};
    auto e = std::make_unique<engine>(threads ? 1 + r.below(5) : 0);
    configure(*e, r);
    e->start();
    {
        database d{r, *e};
        auto n = 2 + r.below(2);
        for (std::size_t i = 0; i < n; ++i) d.make_table(rows);
        vh::event("tables", n);
        for (std::size_t q = 0; q < queries; ++q) {
            auto s = r.next();
            if (auto* p = getenv("Q"); p != nullptr && s != std::strtoull(p, nullptr, 10)) { r.coin(6); r.coin(45); r.below(9); continue; }
            vh::phase("query seed " + std::to_string(s));
            result want;
            bool compiled = false;
            bool errs = r.coin(6);
            // read-only transactions split scans into ranges of keys that tasks read in parallel
            bool ro = r.coin(45);
            auto par = r.below(9);
            auto text = e->put("SELECT", [&](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                vh::rng g{s};
                plan_builder pb{env};
                auto pool = d.pool;
                plan_gen gen{g, pb, d.tables, pool};
                gen.allow_errors = errs;
                gen.query(1 + g.below(7));
                want = std::move(gen.out);
                compiled = true;
                return std::move(pb.stmt);
            });
            vh::guarded("query", [&] {
                if (getenv("V")) fprintf(stderr, "query %lu\n", (unsigned long) s);
                api::transaction_option opt{};
                if (ro) opt.readonly(true).scan_parallel(par);
                auto o = e->run(text, opt);
                if (ro) vh::event("readonly_" + std::string{par > 1 ? "parallel" : "serial"});
                VH_CHECK(compiled, "query.prepare", "statement was not prepared: " << static_cast<int>(o.st) << " " << o.message);
                std::string where = "db " + std::to_string(seed) + " query " + std::to_string(s) + " [" + want.text + "]" + (ro ? " read-only, parallel " + std::to_string(par) : std::string{});
                if (want.error) {
                    VH_CHECK(! o.ok(), "query.error", where << " evaluates rows with errors, and yet succeeds with " << o.rows.size() << " rows");
                    vh::event("failed_as_expected");
                } else {
                    VH_CHECK(o.ok(), "query.status", where << " failed: " << static_cast<int>(o.st) << " " << o.message);
                    VH_CHECK(o.kinds == want.kinds || (o.rows.empty() && want.rows.empty()), "query.meta", where << " has other columns: " << show_kinds(o.kinds) << " for " << show_kinds(want.kinds));
                    auto df = row_diff(want.kinds, want.rows, o.rows);
                    VH_CHECK(df.empty(), "query.rows", where << " " << df);
                    if (want.ordered) { auto od = order_diff(want, o.rows); VH_CHECK(od.empty(), "query.order", where << " " << od); vh::event("ordered"); }
                    vh::event("rows", o.rows.size());
                }
                for (auto& x : want.ops) vh::event("op:" + x);
                vh::event("queries");
                if (want.ops.size() > 2 && ! want.rows.empty()) { vh::nontrivial(vh::hash(want.text)); vh::sample(want.text); }
            });
            yugawara::statement_registry::instance().erase(text);
        }
    }
    VH_EXPECT(memkvs::ctl().open_iters == 0, "query.iterators", memkvs::ctl().open_iters << " iterators are left open");
    e.reset();
    VH_EXPECT(memkvs::ctl().open_txs == 0, "query.transactions", memkvs::ctl().open_txs << " transactions are left open");
}
static bool tsan = false;
static void body() {
    vh::rng r{vh::seed() * 7919 + (tsan ? 5 : 0)};
    if (auto* p = getenv("DB")) { database_case(std::strtoull(p, nullptr, 10), 40, getenv("THREADS") != nullptr, getenv("ROWS") ? static_cast<std::size_t>(atoi(getenv("ROWS"))) : 25); return; }
    auto n = tsan ? vh::scale(40, 400) : vh::scale(80, 900);
    for (std::size_t i = 0; i < n; ++i) vh::guarded("database", [&] { database_case(r.next(), tsan ? 25 : 40, tsan || i % 3 == 0, i % 8 == 7 && ! tsan ? 400 : 25); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    if (! getenv("GLOG_v")) FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c33_query", "a plan of more than two kinds of operators whose result has rows", body);
}
