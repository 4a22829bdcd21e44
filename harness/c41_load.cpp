// LOAD: the statement runs once for each record of each file, all or nothing for a transaction and for a block,
// and the end is told once, truly, when nothing is under way any more.
#define VH_OWN_READER
#include "db.h"
#include "sqlgen.h"
#include <thread>
#include <glog/logging.h>
#include <jogasaki/api/impl/parameter_set.h>
#include <jogasaki/executor/batch/batch_block_executor.h>
#include <jogasaki/executor/batch/batch_executor.h>
#include <jogasaki/executor/batch/batch_file_executor.h>
#include <jogasaki/executor/file/loader.h>
#include <jogasaki/executor/global.h>
using namespace dbx;
namespace jx = jogasaki::executor;
static bool tsan = false;
static std::uint64_t mixed(std::uint64_t a, std::uint64_t b) { return vh::mix(vh::mix(a) + b); }

// ---- files, as the reader of a file format gives them
struct file_def {
    std::vector<std::string> names{};
    std::vector<fdesc> types{};
    std::vector<std::vector<row>> groups{};
    std::optional<std::size_t> bad_group{};     // which cannot be opened
};
static std::mutex files_m;
static std::map<std::string, std::shared_ptr<file_def>> files;
static std::atomic<std::int64_t> readers_open{}, delivered{};
static std::atomic<std::uint64_t> pace{};
static void wander() {
    auto p = pace.load();
    if (p == 0) return;
    static std::atomic<std::uint64_t> calls{};
    auto x = vh::mix(p + calls.fetch_add(1, std::memory_order_relaxed));
    switch (x % 8) {
        case 0: std::this_thread::sleep_for(std::chrono::microseconds(x / 8 % 200)); break;
        case 1: case 2: std::this_thread::yield(); break;
        default: break;
    }
}
namespace jogasaki::executor::file {
class parquet_reader::impl {
public:
    std::shared_ptr<file_def> f{};
    std::string path{};
    std::vector<std::size_t> column{};      // per parameter, npos when it has none
    meta::record_meta const* meta{};
    maybe_shared_ptr<meta::external_record_meta> none{};
    std::size_t group{}, pos{}, count{};
    std::unique_ptr<std::vector<std::string>> texts{};
    std::unique_ptr<data::aligned_buffer> buf{};
    bool open{true};
    impl() { ++readers_open; }
    ~impl() { shut(); }
    void shut() { if (open) { open = false; --readers_open; } }
};
parquet_reader::parquet_reader() : impl_(std::make_unique<impl>()) {}
parquet_reader::~parquet_reader() noexcept = default;
parquet_reader::parquet_reader(parquet_reader&& other) noexcept = default;
parquet_reader& parquet_reader::operator=(parquet_reader&& other) noexcept = default;
bool parquet_reader::next(accessor::record_ref& ref) {
    wander();
    auto& p = *impl_;
    if (! p.open) vh::record_fail("load.reader", "a closed reader is read");
    // what the previous call gave is gone
    p.buf = std::make_unique<data::aligned_buffer>(p.meta->record_size(), p.meta->record_alignment());
    p.buf->resize(p.meta->record_size());
    std::memset(p.buf->data(), 0xa5, p.meta->record_size());
    p.texts = std::make_unique<std::vector<std::string>>(p.column.size());
    ref = accessor::record_ref{p.buf->data(), p.meta->record_size()};
    if (p.f->groups.empty() || p.pos >= p.f->groups[p.group].size()) return false;
    auto& w = p.f->groups[p.group][p.pos++];
    for (std::size_t i = 0; i < p.column.size(); ++i) {
        auto c = p.column[i];
        if (c == npos) continue;
        auto& v = w[c];
        ref.set_null(p.meta->nullity_offset(i), v.null);
        if (v.null) continue;
        auto& fd = p.f->types[c];
        if (fd.k == rec::kind::character || fd.k == rec::kind::octet) {
            auto& s = (*p.texts)[i] = v.s;
            if (fd.k == rec::kind::character) ref.set_value(p.meta->value_offset(i), accessor::text{std::string_view{s}});
            else ref.set_value(p.meta->value_offset(i), accessor::binary{std::string_view{s}});
        } else rec::put(ref, *p.meta, i, fd, v, nullptr);
    }
    ++p.count;
    ++delivered;
    return true;
}
bool parquet_reader::close() { impl_->shut(); return true; }
std::string parquet_reader::path() const noexcept { return impl_->path; }
std::size_t parquet_reader::read_count() const noexcept { return impl_->count; }
maybe_shared_ptr<meta::external_record_meta> const& parquet_reader::meta() { return impl_->none; }
std::size_t parquet_reader::row_group_count() const noexcept { return impl_->f->groups.size(); }
std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view path, reader_option const* opt, std::size_t group) {
    wander();
    std::shared_ptr<file_def> f;
    { std::lock_guard g{files_m}; auto it = files.find(std::string{path}); if (it == files.end()) return {}; f = it->second; }
    if (group != index_unspecified && (group >= f->groups.size() || f->bad_group == group)) {
        if (group >= f->groups.size()) vh::event("groups out of range");
        return {};
    }
    auto r = std::make_shared<parquet_reader>();
    r->impl_->f = f;
    r->impl_->path = std::string{path};
    r->impl_->group = group == index_unspecified ? 0 : group;
    if (opt) {
        r->impl_->meta = opt->meta_;
        for (auto& l : opt->loc_) {
            std::size_t c = npos;
            if (! l.empty_) {
                if (l.index_ != npos) c = l.index_;
                else for (std::size_t i = 0; i < f->names.size(); ++i) if (f->names[i] == l.name_) c = i;
                if (c >= f->names.size()) return {};
            }
            r->impl_->column.push_back(c);
        }
    }
    return r;
}
}

static api::field_type_kind to_api(kind k) {
    using a = api::field_type_kind;
    switch (k) {
        case kind::int4: return a::int4;
        case kind::int8: return a::int8;
        case kind::float4: return a::float4;
        case kind::float8: return a::float8;
        case kind::decimal: return a::decimal;
        case kind::character: return a::character;
        case kind::octet: return a::octet;
        case kind::date: return a::date;
        case kind::time_of_day: return a::time_of_day;
        default: return a::time_point;
    }
}
static void set(api::parameter_set& p, std::string const& n, kind k, val const& v) {
    if (v.null) { p.set_null(n); return; }
    switch (k) {
        case kind::int4: p.set_int4(n, static_cast<std::int32_t>(v.i)); break;
        case kind::int8: p.set_int8(n, v.i); break;
        case kind::float4: p.set_float4(n, static_cast<float>(v.d)); break;
        case kind::float8: p.set_float8(n, v.d); break;
        case kind::decimal: p.set_decimal(n, v.t); break;
        case kind::character: p.set_character(n, std::string_view{v.s}); break;
        case kind::octet: p.set_octet(n, std::string_view{v.s}); break;
        case kind::date: p.set_date(n, rec::date{v.i}); break;
        case kind::time_of_day: p.set_time_of_day(n, rec::time_of_day{std::chrono::nanoseconds{v.i}}); break;
        default: p.set_time_point(n, rec::mk_tp(v)); break;
    }
}
template <class F> static bool within(int seconds, F f) {
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(seconds);
    while (! f()) {
        if (std::chrono::steady_clock::now() > end) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    return true;
}

struct world {
    vh::rng& r;
    engine e;
    sg::database d;
    std::size_t loads{};
    explicit world(vh::rng& r, std::size_t threads) : r(r), e(threads), d(r, e) {
        e.start();
        (void) jogasaki::global::database_impl(e.db);
        d.make_table(8, 2);
    }
    sg::table& t() { return d.tables[0]; }
    std::vector<kind> kinds() { std::vector<kind> k; for (auto& c : t().cols) k.push_back(c.f.k); return k; }
    std::string insert_text() {
        return e.put("INSERT :", [name = t().name, cols = t().cols](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto p = env.schema.shared_storage_provider();
            auto tb = p->find_table(name);
            yugawara::binding::factory b{};
            std::vector<eptr> x;
            for (std::size_t i = 0; i < cols.size(); ++i) {
                auto h = env.host_variables ? env.host_variables->find("p" + std::to_string(i)) : nullptr;
                if (! h) throw yugawara::compile_failure{yugawara::compiler_code::unresolved_variable, "no placeholder"};
                auto v = b(h);
                env.info.bind(v, h->shared_type());
                env.info.variables().bind(v, yugawara::analyzer::variable_resolution_kind::external);
                x.push_back(reference(env, v));
            }
            std::vector<tr::details::values_row> vr;
            vr.emplace_back(std::move(x));
            std::vector<var> cv;
            for (auto& c : cols) for (auto& dc : tb->columns()) if (dc.simple_name() == c.name) cv.push_back(b(dc));
            return std::make_unique<tst::write>(tr::write_kind::insert, b(*p->find_primary_index(*tb)), std::move(cv), std::move(vr));
        });
    }
    std::string select_text() {
        return e.put("SELECT *", [name = t().name, cols = t().cols](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            plan_builder pb{env};
            auto tb = pb.tables().find_table(name);
            auto& p = pb.process();
            std::vector<tr::scan::column> m;
            std::vector<tr::emit::column> ec;
            for (std::size_t i = 0; i < cols.size(); ++i) {
                auto v = pb.stream(sql_type(cols[i].f));
                m.emplace_back(pb.b(tb->columns()[i]), v);
                ec.emplace_back(v, cols[i].name);
            }
            auto& a = p.operators().emplace<tr::scan>(pb.b(*pb.tables().find_primary_index(*tb)), std::move(m));
            auto& b = p.operators().emplace<tr::emit>(std::move(ec));
            a.output() >> b.input();
            return std::move(pb.stmt);
        });
    }
    bool taken(std::vector<row> const& more, row const& w) {
        for (auto& x : t().rows) if (sg::key_cmp(t(), t().pk, x, w) == 0) return true;
        for (auto& x : more) if (sg::key_cmp(t(), t().pk, x, w) == 0) return true;
        return false;
    }
    std::vector<row> stored() {
        auto o = e.run(select_text());
        VH_CHECK(o.ok(), "load.select", "SELECT failed: " << o.message);
        return o.rows;
    }
    struct block { std::string file; std::size_t group; std::vector<row> rows; bool bad{}; };
    // one load; how: 0 the database's, 1 with options, 2 in a transaction, 3 in a transaction some records at a time
    void load(int how) {
        bool in_tx = how >= 2;
        std::ostringstream log;
        auto k = kinds();
        auto n = t().cols.size();
        std::vector<bool> is_key(n);
        for (auto& x : t().pk.keys) is_key[x.first] = true;
        // parameters: by name, by position, or the same for all
        enum { by_name, by_pos, same };
        std::vector<int> pk(n);
        std::vector<val> fixed(n);
        for (std::size_t i = 0; i < n; ++i) {
            pk[i] = ! is_key[i] && r.coin(15) ? same : r.coin() ? by_name : by_pos;
            if (pk[i] == same) fixed[i] = d.pool.get(r, t().cols[i].f);
        }
        // columns of the files: those of the table in another order, and others
        std::vector<std::size_t> perm;
        for (std::size_t i = 0; i < n; ++i) perm.push_back(i);
        for (std::size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        bool small = r.coin(40);
        auto nf = r.coin(5) ? 0 : 1 + r.below(in_tx ? 4 : small ? 16 : 7);
        std::vector<std::string> paths;
        std::vector<block> blocks;
        std::vector<row> all;
        bool fault = r.coin(35);
        bool many = fault && r.coin(40);      // several things go wrong
        bool empties = r.coin(40);
        bool expect_fail = false;
        {
            std::lock_guard g{files_m};
            files.clear();
        }
        for (std::size_t f = 0; f < nf; ++f) {
            auto fd = std::make_shared<file_def>();
            for (auto c : perm) { fd->names.push_back("F" + std::to_string(c)); fd->types.push_back(t().cols[c].f); }
            auto ng = in_tx ? 1 : empties && r.coin(15) ? 0 : 1 + r.below(5);
            std::string path = "/f" + std::to_string(f);
            for (std::size_t gi = 0; gi < ng; ++gi) {
                block b{path, gi, {}};
                auto want = empties && r.coin(60) ? 0 : r.below(small ? 2 : r.coin(80) ? 5 : 25);
                std::vector<row> file_rows;
                for (std::size_t i = 0; i < want; ++i) {
                    row w;
                    for (std::size_t c = 0; c < n; ++c) w.push_back(pk[c] == same ? fixed[c] : d.pool.get(r, t().cols[c].f));
                    for (int a = 0; a < 20 && taken(all, w); ++a) for (std::size_t c = 0; c < n; ++c) if (is_key[c]) w[c] = sg::pools::any(r, t().cols[c].f);
                    if (taken(all, w)) continue;
                    all.push_back(w);
                    b.rows.push_back(w);
                }
                if (fault && (many || ! expect_fail) && r.coin(many ? 60 : 30)) {
                    auto kind_of = r.below(3);
                    std::vector<row> known = b.rows.empty() ? t().rows : r.coin() ? b.rows : t().rows;
                    if (kind_of == 0 && ! known.empty()) { b.rows.insert(b.rows.begin() + static_cast<long>(r.below(b.rows.size() + 1)), r.pick(known)); b.bad = expect_fail = true; log << " duplicate key in " << path << "/" << gi; }
                    else if (kind_of == 1 && ! in_tx && ! fd->bad_group) { fd->bad_group = gi; b.bad = expect_fail = true; log << " unreadable " << path << "/" << gi; }
                }
                for (auto& w : b.rows) { row x; for (auto c : perm) x.push_back(w[c]); file_rows.push_back(std::move(x)); }
                log << " " << path << "/" << gi << ":" << b.rows.size();
                fd->groups.push_back(std::move(file_rows));
                blocks.push_back(std::move(b));
            }
            bool missing = fault && ! expect_fail && r.coin(10);
            if (missing) { expect_fail = true; for (auto& b : blocks) if (b.file == path) b.bad = true; log << " no " << path; }
            else { std::lock_guard g{files_m}; files[path] = fd; }
            paths.push_back(path);
        }
        auto params = std::shared_ptr<api::parameter_set>{api::create_parameter_set()};
        std::unordered_map<std::string, api::field_type_kind> vars;
        for (std::size_t i = 0; i < n; ++i) {
            auto name = "p" + std::to_string(i);
            vars[name] = to_api(k[i]);
            if (pk[i] == same) set(*params, name, k[i], fixed[i]);
            else if (pk[i] == by_name) params->set_reference_column(name, std::string_view{"F" + std::to_string(i)});
            else params->set_reference_column(name, static_cast<std::size_t>(std::find(perm.begin(), perm.end(), i) - perm.begin()));
        }
        api::statement_handle h{};
        std::shared_ptr<jogasaki::error::error_info> err{};
        auto rc = e.db->prepare(insert_text(), vars, h, err);
        VH_CHECK(rc == status::ok, "load.prepare", "PREPARE failed: " << static_cast<int>(rc) << " " << (err ? err->message() : ""));
        // what goes wrong below
        auto& c = memkvs::ctl();
        auto failing = std::make_shared<std::atomic<int>>(0);
        auto hits = std::make_shared<std::atomic<int>>(0);
        bool commit_fault = fault && ! expect_fail && ! in_tx && r.coin(30);
        if (commit_fault) {
            *failing = 1 + static_cast<int>(r.below(3));
            c.fault = [failing, hits](char const* what) {
                if (std::string_view{what} == "transaction_commit" && --*failing == 0) { ++*hits; return sharksfin::StatusCode::ERR_ABORTED_RETRYABLE; }
                return sharksfin::StatusCode::OK;
            };
        }
        c.hold = [](char const*) { wander(); };
        pace = r.coin(70) ? r.next() | 1U : 0;
        delivered = 0;
        std::atomic<int> told{};
        status got{};
        std::shared_ptr<jogasaki::error::error_info> gerr{};
        auto done = [&](status st, std::shared_ptr<jogasaki::error::error_info> const& er) { got = st; gerr = er; ++told; };
        std::size_t total = 0;
        for (auto& b : blocks) total += b.rows.size();
        vh::event("records in files", total);
        std::string what = (how == 0 ? "LOAD" : how == 1 ? "LOAD with options" : how == 2 ? "LOAD in a transaction" : "LOAD in parts") + log.str();
        api::transaction_handle tx{};
        if (in_tx) tx = e.begin();
        std::weak_ptr<jx::batch::batch_executor> left{};
        std::atomic<int> files_released{}, blocks_released{};
        if (how == 0) {
            e.db->execute_load(h, std::shared_ptr<api::parameter_set const>{params}, paths, [&](status st, std::shared_ptr<jogasaki::error::error_info> er) { done(st, er); });
        } else if (how == 1) {
            std::size_t mf = r.coin(30) ? jx::batch::batch_executor_option::undefined : 1 + r.below(3);
            std::size_t mb = r.coin(30) ? jx::batch::batch_executor_option::undefined : 1 + r.below(3);
            what += " files " + std::to_string(static_cast<std::int64_t>(mf)) + " blocks " + std::to_string(static_cast<std::int64_t>(mb));
            auto st = e.db->find_statement(h);
            auto b = jx::batch::batch_executor::create_batch_executor(paths, jx::batch::batch_execution_info{st, std::shared_ptr<api::parameter_set const>{params}, e.db.get(),
                [&] { ++told; }, jx::batch::batch_executor_option{mf, mb, [&](jx::batch::batch_file_executor*) { ++files_released; wander(); }, [&](jx::batch::batch_block_executor*) { ++blocks_released; wander(); }}});
            left = b;
            auto state = b->state();
            b->bootstrap();
            b.reset();
            VH_CHECK(within(60, [&] { return told.load() > 0; }), "load.answer", what << ": its end is not told");
            got = state->status_code();
            gerr = state->error_info();
            VH_CHECK(within(30, [&] { return left.expired(); }), "load.end", what << ": the load stays after its end");
            VH_CHECK(state->running_statements() == 0, "load.running", what << ": " << state->running_statements() << " statements run after the load is gone");
        } else if (how == 2) {
            jx::execute_load(*e.db, e.context(tx), h, std::shared_ptr<api::parameter_set const>{params}, paths, [&](status st, std::shared_ptr<jogasaki::error::error_info> er) { done(st, er); }, {});
        } else {
            auto bulk = 1 + r.below(6);
            auto l = std::make_unique<jx::file::loader>(paths, e.db->find_statement(h), std::shared_ptr<api::parameter_set const>{params}, e.context(tx), *e.db, bulk);
            jx::file::loader_result res{};
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
            while ((res = (*l)()) == jx::file::loader_result::running) {
                VH_CHECK(l->running_statement_count() <= bulk, "load.bulk", what << ": more than " << bulk << " statements at once");
                VH_CHECK(std::chrono::steady_clock::now() < end, "load.answer", what << ": does not end");
                std::this_thread::yield();
            }
            auto [st, msg] = l->error_info();
            VH_EXPECT((res == jx::file::loader_result::ok) == (st == status::ok), "load.status", what << ": result " << static_cast<int>(res) << " status " << static_cast<int>(st));
            if (res == jx::file::loader_result::ok) VH_EXPECT(l->records_loaded() == total, "load.count", what << ": " << l->records_loaded() << " records loaded of " << total);
            got = st;
            ++told;
        }
        VH_CHECK(within(60, [&] { return told.load() > 0; }), "load.answer", what << ": its end is not told");
        if (got == status::ok) VH_EXPECT(delivered.load() == static_cast<std::int64_t>(total), "load.read", what << ": success, " << delivered.load() << " records read of " << total);
        if (how != 3) VH_EXPECT((got == status::ok) == ! gerr, "load.error", what << ": status " << static_cast<int>(got) << " error " << (gerr ? gerr->message() : ""));
        VH_EXPECT((got != status::ok) == (expect_fail || hits->load() != 0), "load.result", what << ": status " << static_cast<int>(got) << (gerr ? " " + std::string{gerr->message()} : "") << (hits->load() ? " commit failed" : ""));
        if (in_tx) {
            auto rc2 = tx.commit();
            VH_EXPECT((rc2 == status::ok) == (got == status::ok), "load.tx", what << ": COMMIT gives " << static_cast<int>(rc2) << " after status " << static_cast<int>(got));
            (void) e.db->destroy_transaction(tx);
        }
        VH_CHECK(within(30, [&] { return readers_open.load() == 0; }), "load.readers", what << ": " << readers_open.load() << " readers stay open");
        VH_CHECK(within(30, [&] { return c.open_txs.load() == 0; }), "load.transactions", what << ": " << c.open_txs.load() << " transactions stay open");
        c.fault = {};
        c.hold = {};
        pace = 0;
        VH_EXPECT(e.db->destroy_statement(h) == status::ok, "load.statement", what << ": the statement is gone");
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        VH_EXPECT(told.load() == 1, "load.once", what << ": its end is told " << told.load() << " times");
        if (how == 1 && got == status::ok) {
            VH_EXPECT(files_released.load() == static_cast<int>(paths.size()), "load.released", what << ": " << files_released.load() << " files released of " << paths.size());
            VH_EXPECT(blocks_released.load() == static_cast<int>(blocks.size()), "load.released_blocks", what << ": " << blocks_released.load() << " blocks released of " << blocks.size());
        }
        // the rows now there
        auto now = stored();
        auto want = t().rows;
        auto has = [&](row const& w) { for (auto& x : now) if (sg::key_cmp(t(), t().pk, x, w) == 0) return true; return false; };
        if (got == status::ok) for (auto& b : blocks) want.insert(want.end(), b.rows.begin(), b.rows.end());
        else if (! in_tx) for (auto& b : blocks) {
            if (b.bad || b.rows.empty() || ! has(b.rows[0])) continue;      // each block is a transaction of its own
            want.insert(want.end(), b.rows.begin(), b.rows.end());
            vh::event("blocks kept by a failed load");
        }
        auto df = sg::row_diff(k, want, now);
        VH_CHECK(df.empty(), "load.rows", what << (got == status::ok ? "" : " (failed)") << ": rows differ: " << df);
        t().rows = now;
        vh::event(got == status::ok ? "loads done" : "loads failed");
        vh::event(how == 0 ? "of the database" : how == 1 ? "with options" : how == 2 ? "in a transaction" : "in parts");
        vh::nontrivial(vh::hash(what) ^ total);
        ++loads;
    }
};
static void history(vh::rng& r, int only) {
    world w{r, 1 + r.below(4)};
    std::size_t n = 4 + r.below(12);
    for (std::size_t i = 0; i < n; ++i) w.load(only >= 0 ? only : static_cast<int>(r.below(4)));
}
static void body() {
    auto one = [](std::uint64_t s) {
        vh::rng r{s};
        vh::phase("W=" + std::to_string(s));
        auto* m = getenv("HOW");
        vh::guarded("load", [&] { history(r, m ? atoi(m) : -1); });
        auto& c = memkvs::ctl();
        c.fault = {};
        c.hold = {};
        pace = 0;
        (void) within(5, [&] { return readers_open.load() == 0 && c.open_txs.load() == 0; });
        readers_open = 0;
    };
    if (auto* s = getenv("W")) { one(std::strtoull(s, nullptr, 10)); return; }
    for (std::size_t i = 0, k = tsan ? vh::scale(60, 400) : vh::scale(200, 3000); i < k; ++i) one(mixed(vh::seed(), i));
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c41_load", "a load", body);
}
