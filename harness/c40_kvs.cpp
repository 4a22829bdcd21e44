// The key-value service under request messages: each answered once, records as they were put, transactions
// apart from each other, requests it cannot serve refused without effect, as its protocol files tell.
#include "db.h"
#include "sqlgen.h"
#include <set>
#include <thread>
#include <glog/logging.h>
#include <google/protobuf/stubs/logging.h>
#include <jogasaki/api/kvsservice/store.h>
#include <jogasaki/api/kvsservice/transaction.h>
#include <jogasaki/api/kvsservice/impl/service.h>
#include <jogasaki/api/resource/bridge.h>
#include <jogasaki/executor/global.h>
using namespace dbx;
namespace srv = tateyama::api::server;
namespace kv = jogasaki::api::kvsservice;
namespace pq = tateyama::proto::kvs::request;
namespace ps = tateyama::proto::kvs::response;
namespace pd = tateyama::proto::kvs::data;
namespace pt = tateyama::proto::kvs::transaction;
using ks = kv::status;
static bool tsan = false;
static std::uint64_t mixed(std::uint64_t a, std::uint64_t b) { return vh::mix(vh::mix(a) + b); }

// the server component which owns the database; it is created by the server's framework, absent here
static jogasaki::api::database* the_db = nullptr;
namespace jogasaki::api::resource {
bridge::bridge() = default;
bridge::~bridge() = default;
framework::component::id_type bridge::id() const noexcept { return tag; }
bool bridge::setup(framework::environment&) { return true; }
bool bridge::start(framework::environment&) { return true; }
bool bridge::shutdown(framework::environment&) { return true; }
jogasaki::api::database* bridge::database() const noexcept { return the_db; }
std::string_view bridge::label() const noexcept { return component_label; }
}

struct answer_probe : srv::response {
    std::mutex m{};
    int bodies{};
    std::string bytes{};
    bool diagnosed{};
    std::optional<std::size_t> session{};
    bool check_cancel() const override { return false; }
    void session_id(std::size_t s) override { session = s; }
    tateyama::status body(std::string_view s) override { std::lock_guard g{m}; ++bodies; bytes = s; return tateyama::status::ok; }
    tateyama::status body_head(std::string_view) override { std::lock_guard g{m}; ++bodies; return tateyama::status::ok; }
    void error(tateyama::proto::diagnostics::Record const&) override { std::lock_guard g{m}; ++bodies; diagnosed = true; }
    tateyama::status acquire_channel(std::string_view, std::shared_ptr<srv::data_channel>&, std::size_t) override { return tateyama::status::unknown; }
    tateyama::status release_channel(srv::data_channel&) override { return tateyama::status::unknown; }
    tateyama::status add_blob(std::unique_ptr<srv::blob_info>) override { return tateyama::status::unknown; }
};
struct ask_probe : srv::request {
    std::string bytes{};
    std::size_t session{7};
    std::size_t session_id() const override { return session; }
    std::size_t service_id() const override { return 4; }
    std::size_t local_id() const override { return 0; }
    std::string_view payload() const override { return bytes; }
};

// ---- values on the wire
static std::string unscaled(mpz_class c, std::size_t extra) {
    mpz_class one = 1;
    std::size_t n = 1;
    while (! (c >= -(one << (8 * n - 1)) && c < (one << (8 * n - 1)))) ++n;
    n = std::min<std::size_t>(n + extra, 17);
    if (c < 0) c += one << (8 * n);
    std::string s(n, '\0');
    for (std::size_t i = 0; i < n; ++i) { mpz_class b = (c >> (8 * (n - 1 - i))) & 0xff; s[i] = static_cast<char>(b.get_ui()); }
    return s;
}
static mpz_class signed_of(std::string const& s) {
    mpz_class c = 0, one = 1;
    for (char x : s) c = (c << 8) + static_cast<unsigned char>(x);
    if (! s.empty() && (static_cast<unsigned char>(s[0]) & 0x80U) != 0) c -= one << (8 * s.size());
    return c;
}
static void to_wire(pd::Value& w, fdesc const& f, val const& v, vh::rng& r) {
    if (v.null) return;
    switch (f.k) {
        case kind::boolean: w.set_boolean_value(v.i != 0); break;
        case kind::int4: w.set_int4_value(static_cast<std::int32_t>(v.i)); break;
        case kind::int8: w.set_int8_value(v.i); break;
        case kind::float4: w.set_float4_value(static_cast<float>(v.d)); break;
        case kind::float8: w.set_float8_value(v.d); break;
        case kind::decimal: {
            auto c = rec::coeff(v.t);
            auto e = v.t.exponent();
            if (e < 0 && c % 10 == 0 && r.coin(30)) { c /= 10; ++e; }
            w.mutable_decimal_value()->set_unscaled_value(unscaled(c, r.coin(80) ? 0 : r.below(4)));
            w.mutable_decimal_value()->set_exponent(e);
            break;
        }
        case kind::character: w.set_character_value(v.s); break;
        case kind::date: w.set_date_value(v.i); break;
        case kind::time_of_day: w.set_time_of_day_value(static_cast<std::uint64_t>(v.i)); break;
        case kind::time_point: w.mutable_time_point_value()->set_offset_seconds(v.i); w.mutable_time_point_value()->set_nano_adjustment(static_cast<std::uint32_t>(v.j)); break;
        default: throw std::logic_error("wire");
    }
}
// empty, or how the value differs
static std::string differs(pd::Value const& w, fdesc const& f, val const& v) {
    auto bad = [&] { return w.ShortDebugString() + " instead of " + v.str(f); };
    if (v.null) return w.value_case() == pd::Value::VALUE_NOT_SET ? "" : bad();
    bool ok = false;
    switch (f.k) {
        case kind::boolean: ok = w.value_case() == pd::Value::kBooleanValue && w.boolean_value() == (v.i != 0); break;
        case kind::int4: ok = w.value_case() == pd::Value::kInt4Value && w.int4_value() == v.i; break;
        case kind::int8: ok = w.value_case() == pd::Value::kInt8Value && w.int8_value() == v.i; break;
        case kind::float4: ok = w.value_case() == pd::Value::kFloat4Value && (w.float4_value() == static_cast<float>(v.d) || (std::isnan(v.d) && std::isnan(w.float4_value()))); break;
        case kind::float8: ok = w.value_case() == pd::Value::kFloat8Value && (w.float8_value() == v.d || (std::isnan(v.d) && std::isnan(w.float8_value()))); break;
        case kind::decimal: {
            if (w.value_case() != pd::Value::kDecimalValue) break;
            auto c = signed_of(w.decimal_value().unscaled_value());
            auto d = rec::coeff(v.t);
            auto a = w.decimal_value().exponent(), b = v.t.exponent();
            if (a > b) c *= rec::p10(static_cast<unsigned long>(a - b)); else d *= rec::p10(static_cast<unsigned long>(b - a));
            ok = c == d;
            break;
        }
        case kind::character: ok = w.value_case() == pd::Value::kCharacterValue && w.character_value() == v.s; break;
        case kind::date: ok = w.value_case() == pd::Value::kDateValue && w.date_value() == v.i; break;
        case kind::time_of_day: ok = w.value_case() == pd::Value::kTimeOfDayValue && w.time_of_day_value() == static_cast<std::uint64_t>(v.i); break;
        case kind::time_point: ok = w.value_case() == pd::Value::kTimePointValue && w.time_point_value().offset_seconds() == v.i && w.time_point_value().nano_adjustment() == v.j; break;
        default: break;
    }
    return ok ? "" : bad();
}
static std::string utf8(vh::rng& r, std::size_t max) {
    static const std::vector<std::string> parts{"a", "b", " ", "Z", "\xc3\xa9", "\xe3\x81\x82", std::string(1, '\0'), "\xf0\x9f\x98\x80", "'"};
    std::string s;
    for (std::size_t n = r.below(10); n > 0; --n) { auto& p = r.pick(parts); if (s.size() + p.size() <= max) s += p; }
    return s;
}
static val some(vh::rng& r, fdesc const& f, bool key) {
    val v;
    if (f.nullable && r.coin(20)) return v;
    v.null = false;
    if (f.k == kind::character) { v.s = utf8(r, f.len.value_or(20)); v.s.erase(std::remove(v.s.begin(), v.s.end(), '\0'), v.s.end()); if (! f.varying) v.s.resize(*f.len, ' '); return v; }
    do {
        v = rec::rand_val(r, f, 0);
        if (f.k == kind::date) v.i = r.range(-1000000, 1000000);
        if (f.k == kind::time_point) v.i = r.range(-5000000000LL, 5000000000LL);
        if (f.k == kind::decimal && (r.coin(20))) { static const std::vector<long> ns{127, 128, 129, 255, 256, 32767, 32768, 65535, -1, -127, -128, -129, -255, -256, -32768, -32769}; v.t = rec::make_triple(mpz_class(r.pick(ns)) % rec::p10(f.p.value_or(38)), -static_cast<std::int32_t>(f.s.value_or(0))); }
    } while ((f.k == kind::float4 || f.k == kind::float8) && (std::isnan(v.d) || (v.d == 0 && std::signbit(v.d) && key)));
    if (key && r.coin(60)) {    // keys that meet
        if (f.k == kind::int4 || f.k == kind::int8 || f.k == kind::date || f.k == kind::time_of_day || f.k == kind::time_point) { v.i = r.range(0, 3); v.j = 0; }
        else if (f.k == kind::decimal) v.t = rec::make_triple(mpz_class(static_cast<long>(r.range(-2, 2))), -static_cast<std::int32_t>(f.s.value_or(0)));
        else v.d = static_cast<double>(r.range(-1, 2));
        if (v.d == 0) v.d = 0;
    }
    return v;
}

struct world {
    vh::rng& r;
    engine e{0};
    std::shared_ptr<jogasaki::api::resource::bridge> bridge{};
    std::unique_ptr<kv::store> store{};
    std::unique_ptr<kv::impl::service> service{};
    sg::pools pool{};
    std::vector<sg::table> tables{};
    std::vector<std::vector<row>> rows{};           // what is committed, by table
    std::string log{};
    std::uint64_t base_txs{};
    struct change { std::size_t table; row key; std::optional<row> value; };
    struct tx { std::uint64_t id{}; bool over{}, dead{}; std::vector<change> w{}; };
    std::vector<tx> txs{};
    std::vector<std::uint64_t> gone{};
    std::vector<std::thread> late{};
    std::mutex late_m{};

    world(vh::rng& rr, std::size_t threads) : r(rr), e(threads) {
        e.start();
        the_db = e.db.get();
        jogasaki::global::database_impl(e.db);
        bridge = std::make_shared<jogasaki::api::resource::bridge>();
        store = std::make_unique<kv::store>(bridge);
        service = std::make_unique<kv::impl::service>(nullptr, store.get());
        VH_CHECK(service->start(), "kvs.start", "the service did not start");
        base_txs = memkvs::ctl().open_txs;
    }
    ~world() {
        memkvs::ctl().fault = {};
        memkvs::ctl().later = {};
        memkvs::ctl().hold = {};
        join();
        store.reset();
    }
    // jobs of the engine may give their transaction back shortly after their answer
    bool settled() const {
        for (int i = 0; i < 5000 && memkvs::ctl().open_txs.load() != static_cast<std::int64_t>(base_txs); ++i) std::this_thread::sleep_for(std::chrono::milliseconds{1});
        return memkvs::ctl().open_txs.load() == static_cast<std::int64_t>(base_txs);
    }
    void join() {
        std::vector<std::thread> l;
        { std::lock_guard g{late_m}; l.swap(late); }
        for (auto& t : l) t.join();
    }
    // ---- messages
    std::optional<ps::Response> send(pq::Request const& q, char const* what) {
        auto req = std::make_shared<ask_probe>();
        req->session = static_cast<std::size_t>(q.command_case()) + 11;
        q.SerializeToString(&req->bytes);
        auto res = std::make_shared<answer_probe>();
        bool done = false;
        try {
            done = (*service)(req, res);
        } catch (std::exception const& x) {
            VH_CHECK(false, "kvs.answer", log << what << ": no answer, " << x.what());
        }
        std::lock_guard g{res->m};
        VH_CHECK(done && res->bodies == 1, "kvs.answer", log << what << ": " << res->bodies << " answers");
        VH_CHECK(res->session == req->session, "kvs.session", log << what << ": the answer is for session " << res->session.value_or(0));
        ps::Response p;
        VH_CHECK(! res->diagnosed && p.ParseFromString(res->bytes), "kvs.answer", log << what << ": the answer is no message");
        vh::event(what);
        return p;
    }
    static ks code(ps::Error const& x) { return static_cast<ks>(x.code()); }
    ks begin(pt::Option const* o, std::uint64_t& id) {
        pq::Request q;
        auto* b = q.mutable_begin();
        if (o) *b->mutable_transaction_option() = *o;
        auto p = send(q, "BEGIN");
        VH_CHECK(p->has_begin() && p->begin().result_case() != ps::Begin::RESULT_NOT_SET, "kvs.kind", log << "BEGIN answered by " << p->ShortDebugString());
        if (p->begin().has_error()) return code(p->begin().error());
        id = p->begin().success().transaction_handle().system_id();
        return ks::ok;
    }
    ks commit(std::uint64_t id, pq::CommitStatus s, bool dispose) {
        pq::Request q;
        auto* c = q.mutable_commit();
        c->mutable_transaction_handle()->set_system_id(id);
        c->set_notification_type(s);
        c->set_auto_dispose(dispose);
        auto p = send(q, "COMMIT");
        VH_CHECK(p->has_commit() && p->commit().result_case() != ps::Commit::RESULT_NOT_SET, "kvs.kind", log << "COMMIT answered by " << p->ShortDebugString());
        return p->commit().has_error() ? code(p->commit().error()) : ks::ok;
    }
    ks rollback(std::uint64_t id) {
        pq::Request q;
        q.mutable_rollback()->mutable_transaction_handle()->set_system_id(id);
        auto p = send(q, "ROLLBACK");
        VH_CHECK(p->has_rollback() && p->rollback().result_case() != ps::Rollback::RESULT_NOT_SET, "kvs.kind", log << "ROLLBACK answered by " << p->ShortDebugString());
        return p->rollback().has_error() ? code(p->rollback().error()) : ks::ok;
    }
    ks dispose(std::uint64_t id) {
        pq::Request q;
        q.mutable_dispose_transaction()->mutable_transaction_handle()->set_system_id(id);
        auto p = send(q, "DISPOSE");
        VH_CHECK(p->has_dispose_transaction() && p->dispose_transaction().result_case() != ps::DisposeTransaction::RESULT_NOT_SET, "kvs.kind", log << "DISPOSE answered by " << p->ShortDebugString());
        return p->dispose_transaction().has_error() ? code(p->dispose_transaction().error()) : ks::ok;
    }
    // nullopt: no error is recorded
    std::optional<ks> error_info(std::uint64_t id) {
        pq::Request q;
        q.mutable_get_error_info()->mutable_transaction_handle()->set_system_id(id);
        auto p = send(q, "GET_ERROR_INFO");
        VH_CHECK(p->has_get_error_info() && p->get_error_info().result_case() != ps::GetErrorInfo::RESULT_NOT_SET, "kvs.kind", log << "GET_ERROR_INFO answered by " << p->ShortDebugString());
        if (p->get_error_info().has_error()) return code(p->get_error_info().error());
        return std::nullopt;
    }
    ks put(std::uint64_t id, std::string const& table, std::vector<pd::Record> const& rs, pq::Put::Type type, int& written) {
        pq::Request q;
        auto* c = q.mutable_put();
        c->mutable_transaction_handle()->set_system_id(id);
        c->mutable_index()->set_table_name(table);
        for (auto& x : rs) *c->add_records() = x;
        c->set_type(type);
        auto p = send(q, "PUT");
        VH_CHECK(p->has_put() && p->put().result_case() != ps::Put::RESULT_NOT_SET, "kvs.kind", log << "PUT answered by " << p->ShortDebugString());
        if (p->put().has_error()) return code(p->put().error());
        written = p->put().success().written();
        return ks::ok;
    }
    ks get(std::uint64_t id, std::string const& table, std::vector<pd::Record> const& rs, std::vector<pd::Record>& out) {
        pq::Request q;
        auto* c = q.mutable_get();
        c->mutable_transaction_handle()->set_system_id(id);
        c->mutable_index()->set_table_name(table);
        for (auto& x : rs) *c->add_keys() = x;
        auto p = send(q, "GET");
        VH_CHECK(p->has_get() && p->get().result_case() != ps::Get::RESULT_NOT_SET, "kvs.kind", log << "GET answered by " << p->ShortDebugString());
        if (p->get().has_error()) return code(p->get().error());
        out.assign(p->get().success().records().begin(), p->get().success().records().end());
        return ks::ok;
    }
    ks remove(std::uint64_t id, std::string const& table, std::vector<pd::Record> const& rs, pq::Remove::Type type, int& removed) {
        pq::Request q;
        auto* c = q.mutable_remove();
        c->mutable_transaction_handle()->set_system_id(id);
        c->mutable_index()->set_table_name(table);
        for (auto& x : rs) *c->add_keys() = x;
        c->set_type(type);
        auto p = send(q, "REMOVE");
        VH_CHECK(p->has_remove() && p->remove().result_case() != ps::Remove::RESULT_NOT_SET, "kvs.kind", log << "REMOVE answered by " << p->ShortDebugString());
        if (p->remove().has_error()) return code(p->remove().error());
        removed = p->remove().success().removed();
        return ks::ok;
    }
    // ---- tables
    void make_table(bool secondary) {
        sg::table t;
        t.name = "K" + std::to_string(tables.size());
        std::size_t n = 2 + r.below(6), nk = 1 + r.below(std::min<std::size_t>(n - 1, 3));
        static const std::vector<kind> kk{kind::int4, kind::int8, kind::decimal, kind::character, kind::date, kind::time_of_day, kind::time_point, kind::float8, kind::float4};
        static const std::vector<kind> vk{kind::int4, kind::int8, kind::decimal, kind::decimal, kind::character, kind::date, kind::time_of_day, kind::time_point, kind::float8, kind::float4};
        std::vector<std::size_t> pos(n);
        for (std::size_t i = 0; i < n; ++i) pos[i] = i;
        for (std::size_t i = n; i > 1; --i) std::swap(pos[i - 1], pos[r.below(i)]);
        std::set<std::size_t> keys(pos.begin(), pos.begin() + static_cast<long>(nk));
        for (std::size_t i = 0; i < n; ++i) {
            fdesc f;
            bool key = keys.count(i) != 0;
            f.k = r.pick(key ? kk : vk);
            f.nullable = ! key && r.coin(70);
            if (f.k == kind::decimal) { f.p = r.coin(30) ? 38 : 1 + r.below(38); f.s = r.below(std::min<std::size_t>(*f.p, 10) + 1); }
            if (f.k == kind::character) { f.varying = r.coin(75); f.len = f.varying ? 1 + r.below(30) : 6; if (f.varying && ! key && r.coin(20)) f.len = {}; }
            t.cols.push_back({"C" + std::to_string(i), f});
        }
        for (std::size_t i = 0; i < nk; ++i) t.pk.keys.emplace_back(pos[i], true);
        t.pk.name = t.name;
        auto o = e.run(e.create_table(t.name, t.cols, t.pk.keys));
        VH_CHECK(o.ok(), "kvs.create_table", "CREATE TABLE failed: " << static_cast<int>(o.st) << " " << o.message);
        if (secondary) {
            std::size_t c = n;
            for (std::size_t i = 0; i < n; ++i) if (t.cols[i].f.k != kind::boolean) c = i;
            t.idxs.push_back({t.name + "X", {{c, true}}});
            o = e.run(e.create_index(t.name, t.name + "X", t.idxs[0].keys));
            VH_CHECK(o.ok(), "kvs.create_index", "CREATE INDEX failed: " << static_cast<int>(o.st) << " " << o.message);
        }
        tables.push_back(std::move(t));
        rows.emplace_back();
    }
    bool same_key(std::size_t ti, row const& a, row const& b) const {
        auto& t = tables[ti];
        for (auto& [c, asc] : t.pk.keys) if (rec::compare(t.cols[c].f, a[c], b[c]) != 0) return false;
        return true;
    }
    bool is_key(sg::table const& t, std::size_t c) const { for (auto& k : t.pk.keys) if (k.first == c) return true; return false; }
    std::optional<row> view(tx const& t, std::size_t ti, row const& key) const {
        for (auto i = t.w.rbegin(); i != t.w.rend(); ++i) if (i->table == ti && same_key(ti, i->key, key)) return i->value;
        for (auto& x : rows[ti]) if (same_key(ti, x, key)) return x;
        return {};
    }
    void apply(tx& t) {
        for (auto& c : t.w) {
            auto& v = rows[c.table];
            v.erase(std::remove_if(v.begin(), v.end(), [&](row const& x) { return same_key(c.table, x, c.key); }), v.end());
            if (c.value) v.push_back(*c.value);
        }
        t.w.clear();
    }
    row random_row(std::size_t ti) {
        auto& t = tables[ti];
        row w;
        for (std::size_t i = 0; i < t.cols.size(); ++i) w.push_back(some(r, t.cols[i].f, is_key(t, i)));
        if (! rows[ti].empty() && r.coin(40)) { auto& x = r.pick(rows[ti]); for (auto& k : t.pk.keys) w[k.first] = x[k.first]; }
        return w;
    }
    pd::Record message(std::size_t ti, row const& w, bool keys_only) {
        auto& t = tables[ti];
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < t.cols.size(); ++i) if (! keys_only || is_key(t, i)) cs.push_back(i);
        for (std::size_t i = cs.size(); i > 1; --i) std::swap(cs[i - 1], cs[r.below(i)]);
        pd::Record m;
        for (auto c : cs) { m.add_names(t.cols[c].name); to_wire(*m.add_values(), t.cols[c].f, w[c], r); }
        return m;
    }
    void check_record(std::size_t ti, pd::Record const& m, row const& w, std::string const& what) {
        auto& t = tables[ti];
        VH_CHECK(m.names_size() == static_cast<int>(t.cols.size()) && m.values_size() == m.names_size(), "kvs.record", log << what << ": a record of " << m.names_size() << " names, " << m.values_size() << " values for " << t.cols.size() << " columns");
        for (int i = 0; i < m.names_size(); ++i) {
            auto u = static_cast<std::size_t>(i);
            VH_CHECK(m.names(i) == t.cols[u].name, "kvs.record", log << what << ": column " << m.names(i) << " in the place of " << t.cols[u].name);
            auto d = differs(m.values(i), t.cols[u].f, w[u]);
            VH_CHECK(d.empty(), "kvs.value", log << what << ": " << t.cols[u].name << " " << t.cols[u].f.str() << " is " << d);
        }
        vh::event("records compared");
    }
    void scan_all(std::string const& when) {
        for (std::size_t ti = 0; ti < tables.size(); ++ti) {
            auto& t = tables[ti];
            auto text = e.put("SELECT", [this, t2 = t](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                plan_builder pb{env};
                auto pl = pool;
                sg::plan_gen g{r, pb, tables, pl};
                sg::flow f;
                f.p = &pb.process();
                std::vector<std::size_t> cs;
                for (std::size_t i = 0; i < t2.cols.size(); ++i) cs.push_back(i);
                auto m = g.columns_of<tr::scan::column>(t2, cs, f.cols);
                f.op = &f.p->operators().emplace<tr::scan>(pb.b(sg::find_index(pb, t2, nullptr)), std::move(m));
                g.emit(std::move(f));
                return std::move(pb.stmt);
            });
            auto o = e.run(text);
            yugawara::statement_registry::instance().erase(text);
            VH_CHECK(o.ok(), "kvs.scan", log << when << ": scan of " << t.name << " failed: " << static_cast<int>(o.st) << " " << o.message);
            std::vector<kind> kinds;
            for (auto& c : t.cols) kinds.push_back(c.f.k);
            auto d = sg::row_diff(kinds, rows[ti], o.rows);
            VH_CHECK(d.empty(), "kvs.scan", log << when << ": " << t.name << ": " << d);
            vh::event("rows scanned", o.rows.size());
        }
    }
    // ---- one step
    static bool aborts(sharksfin::StatusCode c) { return c == sharksfin::StatusCode::ERR_ABORTED_RETRYABLE || c == sharksfin::StatusCode::ERR_ABORTED; }
    // one record with one thing wrong, and what it is refused with
    std::optional<ks> spoil(std::size_t ti, pd::Record& m, bool keys_only, std::string& what) {
        auto& t = tables[ti];
        auto at = [&](std::string const& n) -> column const* { for (auto& c : t.cols) if (c.name == n) return &c; return nullptr; };
        auto i = static_cast<int>(r.below(static_cast<std::size_t>(m.names_size())));
        auto* c = at(m.names(i));
        auto ci = static_cast<std::size_t>(c - t.cols.data());
        switch (r.below(8)) {
            case 0: what = "an unknown column"; m.add_names("Z9"); m.add_values()->set_int4_value(1); return ks::err_column_not_found;
            case 1: what = "a column twice"; m.add_names(m.names(i)); *m.add_values() = m.values(i); return ks::err_invalid_argument;
            case 2: what = "names and values of different number"; if (r.coin()) m.add_names("C0"); else m.add_values()->set_int4_value(1); return ks::err_invalid_argument;
            case 3: what = "no columns"; m.Clear(); return ks::err_invalid_argument;
            case 4: {
                what = "a column less";
                pd::Record n;
                for (int k = 0; k < m.names_size(); ++k) if (k != i) { n.add_names(m.names(k)); *n.add_values() = m.values(k); }
                m = n;
                if (m.names_size() == 0) return ks::err_invalid_argument;
                return is_key(t, ci) ? ks::err_mismatch_key : ks::err_incomplete_columns;
            }
            case 5: {
                auto* v = m.mutable_values(i);
                v->Clear();
                if (c->f.k == kind::int8) v->set_int4_value(1); else if (r.coin() || c->f.k == kind::boolean) v->set_int8_value(1); else v->set_boolean_value(true);
                what = "a value of another type";
                return ks::err_column_type_mismatch;
            }
            case 6: {
                if (c->f.nullable) return {};
                m.mutable_values(i)->Clear();
                what = "NULL where it is not allowed";
                return ks::err_invalid_argument;
            }
            default: {
                auto* v = m.mutable_values(i);
                if (c->f.k == kind::character && r.coin(30)) { v->set_character_value(std::string(1, '\0')); what = "a text with a NUL"; return ks::err_invalid_argument; }
                if (c->f.k == kind::character && c->f.len) { v->set_character_value(std::string(*c->f.len + 1 + r.below(20), 'x')); what = "a long text"; return ks::err_resource_limit_reached; }
                if (c->f.k == kind::decimal) {
                    auto s = static_cast<std::int32_t>(c->f.s.value_or(0));
                    if (r.coin()) { v->mutable_decimal_value()->set_unscaled_value(unscaled(rec::p10(c->f.p.value_or(38)), 0)); v->mutable_decimal_value()->set_exponent(-s); }
                    else { v->mutable_decimal_value()->set_unscaled_value(unscaled(r.coin() ? 15 : -15, 0)); v->mutable_decimal_value()->set_exponent(-s - 1); }
                    what = "a decimal out of its type";
                    return ks::err_invalid_argument;
                }
                return {};
            }
        }
        (void) keys_only;
    }
    // the engine is told to fail the next operation
    sharksfin::StatusCode arm(char const* what) {
        using S = sharksfin::StatusCode;
        static const std::vector<S> cs{S::ERR_ABORTED_RETRYABLE, S::ERR_ABORTED, S::ERR_UNKNOWN, S::ERR_IO_ERROR, S::ERR_INVALID_ARGUMENT, S::ERR_INVALID_STATE, S::ERR_UNSUPPORTED, S::ERR_USER_ERROR, S::ERR_TIME_OUT, S::ERR_NOT_IMPLEMENTED,
            S::ERR_ILLEGAL_OPERATION, S::ERR_WRITE_WITHOUT_WRITE_PRESERVE, S::ERR_RESOURCE_LIMIT_REACHED, S::ERR_INVALID_KEY_LENGTH, S::ERR_BLOCKED_BY_CONCURRENT_OPERATION, S::ERR_CONFLICT_ON_WRITE_PRESERVE};
        auto c = r.pick(cs);
        memkvs::ctl().fault = [c, what = std::string{what}](char const* w) { return w == what ? c : S::OK; };
        vh::event("faults");
        return c;
    }
    static ks of(sharksfin::StatusCode c) {
        using S = sharksfin::StatusCode;
        switch (c) {
            case S::ERR_UNKNOWN: return ks::err_unknown;
            case S::ERR_IO_ERROR: return ks::err_io_error;
            case S::ERR_INVALID_ARGUMENT: return ks::err_invalid_argument;
            case S::ERR_INVALID_STATE: return ks::err_invalid_state;
            case S::ERR_UNSUPPORTED: return ks::err_unsupported;
            case S::ERR_USER_ERROR: return ks::err_user_error;
            case S::ERR_ABORTED: return ks::err_aborted;
            case S::ERR_ABORTED_RETRYABLE: return ks::err_aborted_retryable;
            case S::ERR_TIME_OUT: return ks::err_time_out;
            case S::ERR_NOT_IMPLEMENTED: return ks::err_not_implemented;
            case S::ERR_ILLEGAL_OPERATION: return ks::err_illegal_operation;
            case S::ERR_CONFLICT_ON_WRITE_PRESERVE: return ks::err_conflict_on_write_preserve;
            case S::ERR_WRITE_WITHOUT_WRITE_PRESERVE: return ks::err_write_without_write_preserve;
            case S::ERR_BLOCKED_BY_CONCURRENT_OPERATION: return ks::err_blocked_by_concurrent_operation;
            case S::ERR_RESOURCE_LIMIT_REACHED: return ks::err_resource_limit_reached;
            case S::ERR_INVALID_KEY_LENGTH: return ks::err_invalid_key_length;
            default: return ks::ok;
        }
    }
    void expect(ks got, ks want, std::string const& what) {
        VH_CHECK(got == want, "kvs.status", log << what << ": " << static_cast<int>(got) << " instead of " << static_cast<int>(want));
    }
    void begin_step() {
        std::uint64_t id{};
        if (r.coin(20)) {
            pt::Option o;
            bool strange = false;
            switch (r.below(8)) {
                case 0: o.set_type(pt::LONG); break;
                case 1: o.set_type(pt::READ_ONLY); break;
                case 2: o.set_priority(pt::WAIT); break;
                case 3: o.set_label("a label"); break;
                case 4: o.set_modifies_definitions(true); break;
                case 5: { auto k = r.below(3); (k == 0 ? o.add_write_preserves() : k == 1 ? o.add_inclusive_read_areas() : o.add_exclusive_read_areas())->set_table_name("K0"); break; }
                case 6: o.set_type(static_cast<pt::Type>(77)); strange = true; break;
                default: o.set_priority(static_cast<pt::Priority>(78)); strange = true; break;
            }
            auto got = begin(&o, id);
            if (strange) VH_CHECK(got != ks::ok, "kvs.status", log << "BEGIN of an unknown option succeeded");
            else expect(got, ks::err_not_implemented, "BEGIN with " + o.ShortDebugString());
            vh::event("unsupported options");
            return;
        }
        if (r.coin(4)) {
            auto c = arm("transaction_begin");
            auto got = begin(nullptr, id);
            memkvs::ctl().fault = {};
            expect(got, of(c), "failing BEGIN");
            return;
        }
        pt::Option o;
        if (r.coin()) o.set_type(pt::SHORT);
        expect(begin(r.coin() ? &o : nullptr, id), ks::ok, "BEGIN");
        for (auto& t : txs) VH_CHECK(t.id != id, "kvs.handle", log << "two transactions of one handle");
        gone.erase(std::remove(gone.begin(), gone.end(), id), gone.end());
        txs.push_back({id});
        log += "begin;";
    }
    void unknown_handle() {
        std::uint64_t id = ! gone.empty() && r.coin(70) ? r.pick(gone) : r.below(1000);
        std::size_t ti = r.below(tables.size());
        auto w = random_row(ti);
        int n{};
        std::vector<pd::Record> out;
        switch (r.below(7)) {
            case 0: expect(put(id, tables[ti].name, {message(ti, w, false)}, pq::Put::OVERWRITE, n), ks::err_invalid_argument, "PUT of no transaction"); break;
            case 1: expect(get(id, tables[ti].name, {message(ti, w, true)}, out), ks::err_invalid_argument, "GET of no transaction"); break;
            case 2: expect(remove(id, tables[ti].name, {message(ti, w, true)}, pq::Remove::COUNTING, n), ks::err_invalid_argument, "REMOVE of no transaction"); break;
            case 3: expect(commit(id, pq::COMMIT_STATUS_UNSPECIFIED, r.coin()), ks::err_invalid_argument, "COMMIT of no transaction"); break;
            case 4: expect(rollback(id), ks::err_invalid_argument, "ROLLBACK of no transaction"); break;
            case 5: expect(dispose(id), ks::err_invalid_argument, "DISPOSE of no transaction"); break;
            default: { auto x = error_info(id); VH_CHECK(x.has_value(), "kvs.status", log << "GET_ERROR_INFO of no transaction"); expect(*x, ks::err_invalid_argument, "GET_ERROR_INFO of no transaction"); }
        }
        vh::event("unknown handles");
    }
    void step() {
        auto open = memkvs::ctl().open_storages.load();
        auto k = r.below(100);
        if (txs.empty() || (k < 8 && txs.size() < 4)) begin_step();
        else if (k < 12) unknown_handle();
        else if (k < 16) {
            VH_CHECK(! error_info(r.pick(txs).id).has_value(), "kvs.error_info", log << "an error is told although none was recorded");
        } else if (k < 22) end_step();
        else act();
        VH_CHECK(memkvs::ctl().open_storages.load() == open, "kvs.storages", log << "storages left open: " << memkvs::ctl().open_storages.load() - open);
    }
    void end_step() {
        auto i = r.below(txs.size());
        auto& t = txs[i];
        auto how = r.below(10);
        auto drop = [&] { gone.push_back(t.id); txs.erase(txs.begin() + static_cast<long>(i)); };
        if (how < 6) {
            if (r.coin(15)) {
                static const std::vector<int> ss{pq::ACCEPTED, pq::AVAILABLE, pq::STORED, pq::PROPAGATED, 55};
                auto s = r.pick(ss);
                auto got = commit(t.id, static_cast<pq::CommitStatus>(s), r.coin());
                if (s == 55) VH_CHECK(got != ks::ok, "kvs.status", log << "COMMIT of an unknown kind succeeded");
                else expect(got, ks::err_not_implemented, "COMMIT of kind " + std::to_string(s));
                return;
            }
            std::optional<sharksfin::StatusCode> f;
            bool late_commit = r.coin(40), disposes = r.coin();
            if (late_commit) memkvs::ctl().later = [this](std::function<void()> g) {
                std::lock_guard l{late_m};
                late.emplace_back([g = std::move(g)] { std::this_thread::sleep_for(std::chrono::microseconds{50}); g(); });
            };
            if (! t.over && ! t.dead && r.coin(25)) f = arm("transaction_commit");
            auto got = commit(t.id, pq::COMMIT_STATUS_UNSPECIFIED, disposes);
            join();
            memkvs::ctl().fault = {};
            memkvs::ctl().later = {};
            if (late_commit) vh::event("commits told later");
            log += f ? "failing commit;" : "commit;";
            if (t.over) { expect(got, ks::err_inactive_transaction, "COMMIT of an ended transaction"); return; }
            t.over = true;
            if (f) { expect(got, of(*f), "failing COMMIT"); t.w.clear(); return; }
            if (t.dead) { VH_CHECK(got != ks::ok, "kvs.commit", log << "COMMIT of an aborted transaction succeeded"); return; }
            expect(got, ks::ok, "COMMIT");
            apply(t);
            if (disposes) drop();
            if (r.coin(40)) scan_all("after COMMIT");
        } else if (how < 8) {
            auto got = rollback(t.id);
            log += "rollback;";
            expect(got, t.over ? ks::err_inactive_transaction : ks::ok, "ROLLBACK");
            t.over = true;
            t.w.clear();
            if (r.coin(40)) scan_all("after ROLLBACK");
        } else {
            expect(dispose(t.id), ks::ok, "DISPOSE");
            log += "dispose;";
            drop();
            if (r.coin(40)) scan_all("after DISPOSE");
        }
    }
    void act() {
        auto& t = txs[r.below(txs.size())];
        std::size_t ti = r.below(tables.size());
        auto& tb = tables[ti];
        auto w = random_row(ti);
        auto op = r.below(10) < 4 ? 0 : r.below(2) + 1;       // put, get, remove
        auto m = message(ti, w, op != 0);
        std::string name = tb.name, what = op == 0 ? "PUT" : op == 1 ? "GET" : "REMOVE";
        std::vector<pd::Record> ms{m}, out;
        auto pt_ = static_cast<pq::Put::Type>(r.below(4));
        auto rt = static_cast<pq::Remove::Type>(r.below(3));
        std::optional<ks> want;
        std::optional<sharksfin::StatusCode> f;
        bool strange = false;
        if (r.coin(18)) {
            std::string why;
            switch (r.below(5)) {
                case 0: name = ""; why = "no table name"; want = ks::err_invalid_argument; break;
                case 1: name = "NOTABLE"; why = "an unknown table"; want = ks::err_table_not_found; break;
                case 2: if (r.coin()) ms.clear(); else ms.push_back(m); why = "other than one record"; want = ks::err_unsupported; break;
                case 3: if (op == 0) pt_ = static_cast<pq::Put::Type>(99); else if (op == 2) rt = static_cast<pq::Remove::Type>(99); else break; strange = true; why = "an unknown kind"; break;
                default: want = spoil(ti, ms[0], op != 0, why); break;
            }
            if (! why.empty()) vh::event(("refused: " + why).c_str());
            what += " with " + why;
            if (want && *want != ks::err_unsupported && t.over) want = ks::err_inactive_transaction;
            else if (want && op != 1 && ! tb.idxs.empty() && name == tb.name && *want != ks::err_unsupported && ! (*want == ks::err_invalid_argument && (ms[0].names_size() != ms[0].values_size() || ms[0].names_size() == 0))) want = ks::err_not_implemented;
        }
        if (! want && ! strange) {
            if (t.over) want = ks::err_inactive_transaction;
            else if (op != 1 && ! tb.idxs.empty()) want = ks::err_not_implemented;
            else if (t.dead) want = ks::err_inactive_transaction;
            else if (r.coin(4)) { f = arm(op == 0 ? "content_put" : op == 1 ? "content_get" : "content_delete"); what = "failing " + what; }
        }
        int n = -1;
        auto got = op == 0 ? put(t.id, name, ms, pt_, n) : op == 1 ? get(t.id, name, ms, out) : remove(t.id, name, ms, rt, n);
        memkvs::ctl().fault = {};
        if (strange) { VH_CHECK(got != ks::ok, "kvs.status", log << what << " succeeded"); return; }
        what += " on " + name + (ms.size() == 1 ? " " + ms[0].ShortDebugString() : "");
        if (want) { expect(got, *want, what); return; }
        auto has = view(t, ti, w);
        if (f) {
            // an operation which found nothing to do may have ended before
            if (op == 2 && ! has && rt != pq::Remove::INSTANT) { expect(got, ks::ok, what); VH_CHECK(n == 0, "kvs.removed", log << what << ": " << n << " removed"); return; }
            expect(got, of(*f), what);
            if (aborts(*f) || *f == sharksfin::StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE) { t.dead = true; t.w.clear(); }
            return;
        }
        expect(got, ks::ok, what);
        if (op == 0) {
            bool does = pt_ == pq::Put::IF_ABSENT ? ! has : pt_ == pq::Put::IF_PRESENT ? has.has_value() : true;
            VH_CHECK(n == (does ? 1 : 0), "kvs.written", log << "PUT " << pt_ << " of a record " << (has ? "present" : "absent") << ": " << n << " written");
            if (does) t.w.push_back({ti, w, w});
        } else if (op == 1) {
            VH_CHECK(out.size() == (has ? 1U : 0U), "kvs.get", log << what << " of a record " << (has ? "present" : "absent") << ": " << out.size() << " records");
            if (has) check_record(ti, out[0], *has, "GET");
        } else {
            int most = has || rt == pq::Remove::INSTANT ? 1 : 0, least = has ? 1 : 0;
            VH_CHECK(n >= least && n <= most, "kvs.removed", log << "REMOVE " << rt << " of a record " << (has ? "present" : "absent") << ": " << n << " removed");
            if (has) t.w.push_back({ti, w, {}});
        }
    }
    // a key along with columns which are no part of it: refused, or answered as if they were not there
    void extra_columns() {
        if (txs.empty()) return;
        auto& t = r.pick(txs);
        std::size_t ti = r.below(tables.size());
        if (t.over || t.dead) return;
        auto w = random_row(ti);
        auto has = view(t, ti, w);
        std::vector<pd::Record> out;
        auto got = get(t.id, tables[ti].name, {message(ti, w, false)}, out);
        vh::event("keys with further columns");
        if (got != ks::ok) return;
        VH_CHECK(out.size() == (has ? 1U : 0U), "kvs.get", log << "GET with further columns: " << out.size() << " records");
        if (has) check_record(ti, out[0], *has, "GET with further columns");
    }
    void close() {
        for (auto& t : txs) if (r.coin(70)) expect(dispose(t.id), ks::ok, "DISPOSE");
            else gone.push_back(t.id);
        txs.clear();
        scan_all("at the end");
        store.reset();
        VH_CHECK(settled(), "kvs.transactions", log << memkvs::ctl().open_txs.load() - static_cast<std::int64_t>(base_txs) << " transactions left open");
    }
};

static void history(vh::rng& r) {
    world w{r, 0};
    std::size_t n = 1 + r.below(3);
    for (std::size_t i = 0; i < n; ++i) w.make_table(i > 0 && r.coin(25));
    for (std::size_t i = 0, k = 60 + r.below(120); i < k; ++i) { if (r.coin(3)) w.extra_columns(); w.step(); }
    w.close();
    vh::nontrivial(vh::hash(w.log) ^ r.next());
}
// clients at once, each with keys of its own
static void clients(vh::rng& r, std::size_t n) {
    world w{r, 2};
    w.make_table(false);
    sg::table t;
    t.name = "P";
    fdesc f;
    f.k = kind::int4;
    f.nullable = false;
    t.cols.push_back({"A", f});
    f.k = kind::decimal; f.p = 38; f.s = 2; f.nullable = true;
    t.cols.push_back({"D", f});
    fdesc c;
    c.k = kind::character; c.varying = true; c.len = 30;
    t.cols.push_back({"S", c});
    t.pk = {"P", {{0, true}}};
    auto o = w.e.run(w.e.create_table(t.name, t.cols, t.pk.keys));
    VH_CHECK(o.ok(), "kvs.create_table", "CREATE TABLE failed");
    w.tables.push_back(t);
    w.rows.emplace_back();
    memkvs::ctl().later = [&w](std::function<void()> g) {
        std::lock_guard l{w.late_m};
        w.late.emplace_back([g = std::move(g)] { g(); });
    };
    std::mutex m;
    std::vector<std::string> troubles;
    memkvs::ctl().misuse = [&](std::string const& s) { std::lock_guard g{m}; troubles.push_back(s); };
    std::vector<std::thread> th;
    std::vector<std::map<int, row>> mine(n);
    std::atomic<std::size_t> requests{};
    auto seed = r.next();
    for (std::size_t i = 0; i < n; ++i) th.emplace_back([&, i] {
        try {
            vh::rng q{mixed(seed, i)};
            auto rec_of = [&](row const& v, bool key) {
                pd::Record x;
                for (std::size_t k = 0; k < (key ? 1 : t.cols.size()); ++k) { x.add_names(t.cols[k].name); to_wire(*x.add_values(), t.cols[k].f, v[k], q); }
                return x;
            };
            for (int round = 0; round < 6; ++round) {
                std::uint64_t id{};
                if (w.begin(nullptr, id) != ks::ok) throw std::runtime_error("BEGIN refused");
                auto now = mine[i];
                for (int k = 0; k < 12; ++k) {
                    ++requests;
                    row v;
                    int key = static_cast<int>(q.below(6) * n + i);
                    val a;
                    a.null = false;
                    a.i = key;
                    v.push_back(a);
                    v.push_back(some(q, t.cols[1].f, false));
                    v.push_back(some(q, t.cols[2].f, false));
                    auto it = now.find(key);
                    int cnt{};
                    std::vector<pd::Record> out;
                    switch (q.below(3)) {
                        case 0: if (w.put(id, "P", {rec_of(v, false)}, pq::Put::OVERWRITE, cnt) != ks::ok || cnt != 1) throw std::runtime_error("PUT not done"); now[key] = v; break;
                        case 1:
                            if (w.get(id, "P", {rec_of(v, true)}, out) != ks::ok || out.size() != (it == now.end() ? 0U : 1U)) throw std::runtime_error("GET differs");
                            if (it != now.end()) for (int z = 0; z < 3; ++z) if (auto d = differs(out[0].values(z), t.cols[static_cast<std::size_t>(z)].f, it->second[static_cast<std::size_t>(z)]); ! d.empty()) throw std::runtime_error("GET: " + d);
                            break;
                        default: if (w.remove(id, "P", {rec_of(v, true)}, pq::Remove::COUNTING, cnt) != ks::ok || cnt != (it == now.end() ? 0 : 1)) throw std::runtime_error("REMOVE differs"); now.erase(key); break;
                    }
                }
                bool keep = q.coin(70);
                if (keep) { if (w.commit(id, pq::COMMIT_STATUS_UNSPECIFIED, false) != ks::ok) throw std::runtime_error("COMMIT refused"); mine[i] = now; }
                else if (q.coin() && w.rollback(id) != ks::ok) throw std::runtime_error("ROLLBACK refused");
                if (w.dispose(id) != ks::ok) throw std::runtime_error("DISPOSE refused");
            }
        } catch (std::exception const& x) { std::lock_guard g{m}; troubles.push_back(x.what()); }
    });
    for (auto& x : th) x.join();
    w.join();
    memkvs::ctl().later = {};
    memkvs::ctl().misuse = {};
    VH_CHECK(troubles.empty(), "kvs.clients", troubles.front() << " (" << troubles.size() << " in all)");
    for (auto& x : mine) for (auto& [k, v] : x) w.rows.back().push_back(v);
    w.close();
    vh::event("requests of clients at once", requests);
    vh::nontrivial(seed);
}
// one transaction, used by many at once, its end among the uses
static void shared(vh::rng& r, std::size_t n) {
    world w{r, 2};
    w.make_table(false);
    std::uint64_t id{};
    VH_CHECK(w.begin(nullptr, id) == ks::ok, "kvs.status", "BEGIN refused");
    std::mutex m;
    std::vector<std::string> troubles;
    memkvs::ctl().misuse = [&](std::string const& s) { std::lock_guard g{m}; troubles.push_back(s); };
    memkvs::ctl().hold = [](char const*) { std::this_thread::sleep_for(std::chrono::microseconds{30}); };
    struct job { std::vector<pd::Record> full, key; };
    std::vector<std::vector<job>> jobs(n);
    for (auto& j : jobs) for (int k = 0; k < 10; ++k) { auto v = w.random_row(0); j.push_back({{w.message(0, v, false)}, {w.message(0, v, true)}}); }
    auto how = r.below(3);
    auto at = r.below(8);
    bool later = r.coin();
    if (later) memkvs::ctl().later = [&w](std::function<void()> g) { std::lock_guard l{w.late_m}; w.late.emplace_back([g = std::move(g)] { g(); }); };
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < n; ++i) th.emplace_back([&, i] {
        try {
            std::size_t k = 0;
            for (auto& j : jobs[i]) {
                if (i == 0 && k++ == at) {
                    if (how == 0) (void) w.dispose(id);
                    else if (how == 1) (void) w.commit(id, pq::COMMIT_STATUS_UNSPECIFIED, true);
                    else { (void) w.rollback(id); (void) w.dispose(id); }
                }
                int c{};
                std::vector<pd::Record> out;
                ks s{};
                switch ((k + i + at) % 3) {
                    case 0: s = w.put(id, "K0", j.full, pq::Put::OVERWRITE, c); break;
                    case 1: s = w.get(id, "K0", j.key, out); break;
                    default: s = w.remove(id, "K0", j.key, pq::Remove::COUNTING, c); break;
                }
                if (s != ks::ok && s != ks::err_inactive_transaction && s != ks::err_invalid_argument) throw std::runtime_error("a request ended with " + std::to_string(static_cast<int>(s)));
            }
        } catch (std::exception const& x) { std::lock_guard g{m}; troubles.push_back(x.what()); }
    });
    for (auto& x : th) x.join();
    w.join();
    memkvs::ctl().later = {};
    memkvs::ctl().hold = {};
    memkvs::ctl().misuse = {};
    VH_CHECK(troubles.empty(), "kvs.shared", troubles.front() << " (" << troubles.size() << " in all)");
    VH_CHECK(w.dispose(id) == ks::err_invalid_argument, "kvs.shared", "the transaction is still there");
    w.store.reset();
    VH_CHECK(w.settled(), "kvs.transactions", "transactions left open");
    vh::event("transactions shared");
    vh::nontrivial(r.next());
}
// bytes which are no request are answered as well
static void bytes(vh::rng& r) {
    world w{r, 0};
    w.make_table(false);
    std::uint64_t id{};
    VH_CHECK(w.begin(nullptr, id) == ks::ok, "kvs.status", "BEGIN refused");
    for (int i = 0; i < 150; ++i) {
        auto req = std::make_shared<ask_probe>();
        pq::Request q;
        switch (r.below(5)) {
            case 0: q.mutable_put()->mutable_transaction_handle()->set_system_id(id); q.mutable_put()->mutable_index()->set_table_name("K0"); *q.mutable_put()->add_records() = w.message(0, w.random_row(0), false); break;
            case 1: q.mutable_get()->mutable_transaction_handle()->set_system_id(id); q.mutable_get()->mutable_index()->set_table_name("K0"); *q.mutable_get()->add_keys() = w.message(0, w.random_row(0), true); break;
            case 2: q.mutable_scan()->mutable_transaction_handle()->set_system_id(id); break;
            case 3: q.mutable_batch(); break;
            default: break;
        }
        q.SerializeToString(&req->bytes);
        if (r.coin(70)) for (auto k = 1 + r.below(3); k > 0 && ! req->bytes.empty(); --k) {
            switch (r.below(3)) {
                case 0: req->bytes[r.below(req->bytes.size())] = static_cast<char>(r.below(256)); break;
                case 1: req->bytes.resize(r.below(req->bytes.size() + 1)); break;
                default: req->bytes += r.bytes(1 + r.below(4)); break;
            }
        }
        // a changed message must not end the transaction this run goes on with, nor start others
        if (pq::Request z; z.ParseFromString(req->bytes) && (z.has_begin() || z.has_dispose_transaction())) continue;
        auto res = std::make_shared<answer_probe>();
        try {
            (void) (*w.service)(req, res);
        } catch (std::exception const& x) {
            VH_CHECK(false, "kvs.bytes", "request " << vh::esc(req->bytes, 200) << " is not answered: " << x.what());
        }
        VH_CHECK(res->bodies == 1, "kvs.bytes", "request " << vh::esc(req->bytes, 200) << " is answered " << res->bodies << " times");
        vh::event("hostile requests");
    }
    w.txs.push_back({id});
    w.expect(w.dispose(id), ks::ok, "DISPOSE");
    w.store.reset();
    vh::nontrivial(r.next());
}

static void body() {
    auto one = [](std::string const& key, std::uint64_t s, auto f) {
        vh::rng r{s};
        vh::phase(key + " W=" + std::to_string(s));
        vh::guarded(key, [&] { f(r); });
        auto& c = memkvs::ctl();
        c.fault = {}; c.later = {}; c.hold = {}; c.misuse = {};
    };
    if (auto* s = getenv("W")) {
        auto u = std::strtoull(s, nullptr, 10);
        auto* m = getenv("MODE");
        std::string mode = m ? m : "history";
        one(mode, u, [&](vh::rng& r) { if (mode == "history") history(r); else if (mode == "clients") clients(r, 4); else if (mode == "shared") shared(r, 4); else bytes(r); });
        return;
    }
    std::size_t n = tsan ? vh::scale(10, 60) : vh::scale(400, 4000);
    for (std::size_t i = 0; i < n; ++i) one("history", mixed(vh::seed(), i), [](vh::rng& r) { history(r); });
    for (std::size_t i = 0, k = vh::scale(20, 200); i < k; ++i) one("clients", mixed(vh::seed(), 100000 + i), [](vh::rng& r) { clients(r, 2 + r.below(4)); });
    for (std::size_t i = 0, k = vh::scale(40, 500); i < k; ++i) one("shared", mixed(vh::seed(), 200000 + i), [](vh::rng& r) { shared(r, 2 + r.below(4)); });
    if (! tsan) for (std::size_t i = 0, k = vh::scale(60, 600); i < k; ++i) one("bytes", mixed(vh::seed(), 300000 + i), [](vh::rng& r) { bytes(r); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    google::protobuf::SetLogHandler(nullptr);
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c40_kvs", "a history of requests, or a group of clients at once", body);
}
