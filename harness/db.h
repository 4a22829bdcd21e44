// The real database object over the in-memory storage engine: tables, statements built as plans, results as values.
#pragma once
#include "vh.h"
#include "rec.h"
#include "sqlval.h"
#include "memkvs.h"
#include "exprtree.h"
#include <condition_variable>
#include <takatori/plan/aggregate.h>
#include <takatori/plan/forward.h>
#include <takatori/plan/group.h>
#include <takatori/plan/process.h>
#include <takatori/relation/ir.h>
#include <takatori/statement/ddl.h>
#include <takatori/statement/execute.h>
#include <takatori/statement/write.h>
#include <yugawara/analyzer/variable_mapping.h>
#include <yugawara/binding/factory.h>
#include <yugawara/compiler.h>
#include <yugawara/storage/basic_prototype_processor.h>
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/impl/result_set.h>
#include <jogasaki/api/impl/record_meta.h>
#include <jogasaki/configuration.h>
#include <jogasaki/error_code.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/plan/storage_processor.h>

// file formats whose libraries are absent
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/parquet_reader.h>
#include <jogasaki/executor/file/parquet_writer.h>
namespace jogasaki::executor::file {
#ifndef VH_OWN_READER
inline __attribute__((used)) std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view, reader_option const*, std::size_t) { return {}; }
#endif
inline __attribute__((used)) std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, parquet_writer_option) { return {}; }
inline __attribute__((used)) std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, arrow_writer_option) { return {}; }
}
namespace dbx {
namespace api = jogasaki::api;
namespace tr = takatori::relation;
namespace tp = takatori::plan;
namespace tst = takatori::statement;
namespace ys = yugawara::storage;
using rec::kind;
using rec::fdesc;
using rec::val;
using jogasaki::status;
using jogasaki::error_code;
using var = takatori::descriptor::variable;
using xt::typ;
using eptr = std::unique_ptr<takatori::scalar::expression>;

inline typ sql_type(fdesc const& d) {
    namespace tt = takatori::type;
    switch (d.k) {
        case kind::decimal: return std::make_shared<tt::decimal>(d.p, d.s);
        case kind::character: return d.varying ? std::make_shared<tt::character>(tt::varying, d.len) : std::make_shared<tt::character>(d.len.value_or(1));
        case kind::octet: return d.varying ? std::make_shared<tt::octet>(tt::varying, d.len) : std::make_shared<tt::octet>(d.len.value_or(1));
        default: return xt::type_of(d.k);
    }
}
struct column {
    std::string name;
    fdesc f{};
    ys::column_value def{};
};
using row = std::vector<val>;
struct outcome {
    status st{status::ok};
    error_code code{};
    std::string message{};
    std::vector<kind> kinds{};
    std::vector<row> rows{};
    std::shared_ptr<jogasaki::request_statistics> stats{};
    bool ok() const { return st == status::ok; }
};
inline std::string show(row const& r, std::vector<kind> const& k) {
    std::string s = "(";
    for (std::size_t i = 0; i < r.size(); ++i) { fdesc f; f.k = k.at(i); s += (i ? "," : "") + r[i].str(f); }
    return s + ")";
}
inline val get(api::record& r, std::size_t i, kind k) {
    val v;
    if (r.is_null(i)) return v;
    v.null = false;
    switch (k) {
        case kind::boolean: v.i = r.get_boolean(i); break;
        case kind::int4: v.i = r.get_int4(i); break;
        case kind::int8: v.i = r.get_int8(i); break;
        case kind::float4: v.d = r.get_float4(i); break;
        case kind::float8: v.d = r.get_float8(i); break;
        case kind::decimal: v.t = r.get_decimal(i); break;
        case kind::character: v.s = std::string{r.get_character(i)}; break;
        case kind::octet: v.s = std::string{r.get_octet(i)}; break;
        case kind::date: v.i = r.get_date(i).days_since_epoch(); break;
        case kind::time_of_day: v.i = r.get_time_of_day(i).time_since_epoch().count(); break;
        case kind::time_point: { auto t = r.get_time_point(i); v.i = t.seconds_since_epoch().count(); v.j = t.subsecond().count(); break; }
        default: break;
    }
    return v;
}
inline kind of_api(api::field_type_kind k) {
    using a = api::field_type_kind;
    switch (k) {
        case a::boolean: return kind::boolean;
        case a::int4: return kind::int4;
        case a::int8: return kind::int8;
        case a::float4: return kind::float4;
        case a::float8: return kind::float8;
        case a::decimal: return kind::decimal;
        case a::character: return kind::character;
        case a::octet: return kind::octet;
        case a::date: return kind::date;
        case a::time_of_day: return kind::time_of_day;
        case a::time_point: return kind::time_point;
        case a::blob: return kind::blob;
        case a::clob: return kind::clob;
        default: return kind::unknown;
    }
}
// a plan under construction
struct plan_builder {
    yugawara::compile_environment& env;
    std::unique_ptr<tst::execute> stmt{std::make_unique<tst::execute>()};
    yugawara::binding::factory b{};
    explicit plan_builder(yugawara::compile_environment& e) : env(e) {}
    tp::graph_type& g() { return stmt->execution_plan(); }
    tp::process& process() { return g().emplace<tp::process>(); }
    var stream(typ t, std::string const& name = {}) { auto v = b.stream_variable(name); env.info.bind(v, std::move(t)); return v; }
    ys::configurable_provider const& tables() const { return *env.schema.shared_storage_provider(); }
};
using builder = yugawara::statement_builder;

struct engine {
    std::shared_ptr<jogasaki::configuration> cfg{std::make_shared<jogasaki::configuration>()};
    std::shared_ptr<api::impl::database> db{};
    std::vector<std::string> texts{};
    static std::string fresh(std::string const& what) { static std::atomic<std::size_t> n{}; return what + " #" + std::to_string(++n); }
    explicit engine(std::size_t threads = 0) {
        cfg->single_thread(threads == 0);
        if (threads != 0) { cfg->thread_pool_size(threads); cfg->default_partitions(threads); }
        cfg->mock_datastore(true);
    }
    ~engine() { for (auto& t : texts) yugawara::statement_registry::instance().erase(t); if (db) (void) db->stop(); }
    void start() {
        db = std::static_pointer_cast<api::impl::database>(std::shared_ptr<api::database>(api::create_database(cfg)));
        auto rc = db->start();
        if (rc != status::ok) vh::fail("engine.start", "database did not start: " + std::to_string(static_cast<int>(rc)));
    }
    std::string put(std::string const& what, builder f) {
        auto t = fresh(what);
        yugawara::statement_registry::instance().put(t, std::move(f));
        texts.push_back(t);
        return t;
    }
    api::transaction_handle begin(api::transaction_option o = api::transaction_option{}) {
        api::transaction_handle h{};
        if (auto rc = db->create_transaction(h, o); rc != status::ok) vh::fail("engine.begin", "transaction was not created: " + std::to_string(static_cast<int>(rc)));
        return h;
    }
    std::shared_ptr<jogasaki::transaction_context> context(api::transaction_handle h) { return db->find_transaction(h); }
    static void read(std::unique_ptr<api::result_set>& rs, outcome& o) {
        if (! rs) return;
        auto* m = rs->meta();
        for (std::size_t i = 0; i < m->field_count(); ++i) o.kinds.push_back(of_api(m->at(i).kind()));
        auto it = rs->iterator();
        while (it->has_next()) {
            auto* r = it->next();
            row w;
            for (std::size_t i = 0; i < o.kinds.size(); ++i) w.push_back(get(*r, i, o.kinds[i]));
            o.rows.push_back(std::move(w));
        }
        rs->close();
    }
    outcome exec(api::transaction_handle tx, std::string const& text, std::unordered_map<std::string, api::field_type_kind> const& variables = {}, std::shared_ptr<api::parameter_set> params = {}) {
        outcome o;
        api::statement_handle h{};
        std::shared_ptr<jogasaki::error::error_info> err{};
        o.st = db->prepare(text, variables, h, err);
        if (o.st == status::ok) {
            std::unique_ptr<api::result_set> rs{};
            auto c = db->find_transaction(tx);
            if (! params) params = api::create_parameter_set();
            o.st = jogasaki::executor::execute(*db, c, h, params, rs, err, o.stats);
            read(rs, o);
            if (db->destroy_statement(h) != status::ok) vh::fail("engine.destroy", "statement handle was not destroyed");
        }
        if (err) { o.code = err->code(); o.message = std::string{err->message()}; }
        return o;
    }
    status commit(api::transaction_handle tx) { auto rc = tx.commit(); (void) db->destroy_transaction(tx); return rc; }
    status abort(api::transaction_handle tx) { auto rc = tx.abort_transaction(); (void) db->destroy_transaction(tx); return rc; }
    // one statement in its own transaction
    outcome run(std::string const& text, api::transaction_option opt = api::transaction_option{}) {
        auto tx = begin(opt);
        auto o = exec(tx, text);
        if (o.ok()) { if (auto rc = commit(tx); rc != status::ok) { o.st = rc; o.message = "commit"; } }
        else (void) db->destroy_transaction(tx);
        return o;
    }
    std::string create_table(std::string const& name, std::vector<column> cols, std::vector<std::pair<std::size_t, bool>> keys) {
        return put("CREATE TABLE " + name, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            std::vector<ys::column> cc;
            for (auto& c : cols) cc.emplace_back(c.name, sql_type(c.f), yugawara::variable::criteria{yugawara::variable::nullity{c.f.nullable}}, c.def);
            auto t = std::make_shared<ys::table>(std::nullopt, name, std::move(cc));
            std::vector<ys::index::key> kk;
            for (auto& [i, asc] : keys) kk.emplace_back(t->columns()[i], asc ? tr::sort_direction::ascendant : tr::sort_direction::descendant);
            auto pk = std::make_shared<ys::index>(t, name, kk, std::vector<ys::index::column_ref>{}, ys::index_feature_set{});
            auto sp = std::dynamic_pointer_cast<ys::basic_prototype_processor>(env.options.storage_processor());
            if (sp) sp->ensure(env.schema, *t, *pk, {});
            yugawara::binding::factory b{};
            return std::make_unique<tst::create_table>(b(t), b.storage(pk));
        });
    }
    std::string create_index(std::string const& table, std::string const& name, std::vector<std::pair<std::size_t, bool>> keys, bool unique = false) {
        return put("CREATE INDEX " + name, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto t = env.schema.shared_storage_provider()->find_table(table);
            if (! t) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + table};
            std::vector<ys::index::key> kk;
            for (auto& [i, asc] : keys) kk.emplace_back(t->columns()[i], asc ? tr::sort_direction::ascendant : tr::sort_direction::descendant);
            auto x = std::make_shared<ys::index>(t, name, kk, std::vector<ys::index::column_ref>{}, ys::index_feature_set{});
            auto sp = std::dynamic_pointer_cast<ys::basic_prototype_processor>(env.options.storage_processor());
            if (sp) sp->ensure(env.schema, *x, {});
            if (unique) x->features().insert(ys::index_feature::unique);
            yugawara::binding::factory b{};
            return std::make_unique<tst::create_index>(b.storage(x));
        });
    }
};
// literal of a column's type
inline eptr literal(yugawara::compile_environment& env, kind k, val const& v) {
    auto t = v.null ? typ{std::make_shared<takatori::type::unknown>()} : xt::type_of(k);
    if (v.null) t = xt::type_of(k);
    auto e = std::make_unique<takatori::scalar::immediate>(xt::value_of(k, v), t);
    env.info.bind(*e, t);
    return e;
}
inline eptr reference(yugawara::compile_environment& env, var const& v) {
    auto e = std::make_unique<takatori::scalar::variable_reference>(v);
    env.info.bind(*e, typ{env.info.type_of(v).copy()});
    return e;
}
}
