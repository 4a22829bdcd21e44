// The SQL service under request messages: one final answer each, of its kind, telling what was done;
// rows as the statement yields them; handles of the own session only; what a session held given back at its end.
#include "db.h"
#include "sqlgen.h"
#include <cstring>
#include <future>
#include <set>
#include <thread>
#include <glog/logging.h>
#include <tateyama/proto/diagnostics.pb.h>
#include <jogasaki/api/impl/service.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/proto/sql/common.pb.h>
#include <jogasaki/proto/sql/error.pb.h>
#include <jogasaki/proto/sql/request.pb.h>
#include <jogasaki/proto/sql/response.pb.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/utils/assign_reference_tag.h>
using namespace dbx;
namespace srv = tateyama::api::server;
namespace rq = jogasaki::proto::sql::request;
namespace rs = jogasaki::proto::sql::response;
namespace cm = jogasaki::proto::sql::common;
namespace er = jogasaki::proto::sql::error;
using diag = tateyama::proto::diagnostics::Code;
using tstatus = tateyama::status;
static bool tsan = false;

// ---- what the server hands to the service, watching how it is used
struct writer_probe : srv::writer {
    std::string pending{}, data{};
    std::atomic<bool> busy{}, released{};
    std::size_t fail_at{static_cast<std::size_t>(-1)}, writes{};
    std::string* trouble{};
    std::mutex* m{};
    void bad(char const* s) { std::lock_guard g{*m}; *trouble = s; }
    tstatus write(char const* d, std::size_t n) override {
        if (busy.exchange(true)) bad("two threads use one writer");
        if (released) bad("a writer is used after its release");
        auto f = ++writes > fail_at;
        if (! f) pending.append(d, n);
        busy = false;
        return f ? tstatus::unknown : tstatus::ok;
    }
    tstatus commit() override {
        if (busy.exchange(true)) bad("two threads use one writer");
        if (released) bad("a writer is used after its release");
        data += pending;
        pending.clear();
        busy = false;
        return tstatus::ok;
    }
};
struct channel_probe : srv::data_channel {
    std::mutex m{};
    std::string trouble{}, name{};
    std::vector<std::shared_ptr<writer_probe>> writers{};
    std::size_t live{}, most{}, limit{}, fail_at{static_cast<std::size_t>(-1)}, fail_write{static_cast<std::size_t>(-1)};
    bool released{}, failed{};
    tstatus acquire(std::shared_ptr<srv::writer>& w) override {
        std::lock_guard g{m};
        if (released) trouble = "a writer is acquired from a released channel";
        if (writers.size() >= fail_at) { failed = true; return tstatus::unknown; }
        if (++live > limit) trouble = "more writers than were announced";
        most = std::max(most, live);
        auto p = std::make_shared<writer_probe>();
        p->m = &m;
        p->trouble = &trouble;
        p->fail_at = fail_write;
        writers.push_back(p);
        w = p;
        return tstatus::ok;
    }
    tstatus release(srv::writer& w) override {
        std::lock_guard g{m};
        for (auto& p : writers) if (p.get() == &w) {
            if (p->released.exchange(true)) trouble = "a writer is released twice";
            if (! p->pending.empty()) trouble = "a writer is released with data not committed";
            --live;
            return tstatus::ok;
        }
        trouble = "a foreign writer is released";
        return tstatus::ok;
    }
};
struct response_probe : srv::response {
    std::mutex m{};
    std::condition_variable cv{};
    std::string trouble{}, kind{"?"};
    int finals{}, heads{};
    bool diagnosed{}, parsed{true}, canceled{};
    diag code{};
    std::string message{};
    rs::Response body_{}, head_{};
    std::vector<std::shared_ptr<channel_probe>> channels{};
    std::optional<std::size_t> session{};
    std::vector<std::string> blobs{};
    bool refuse_channel{};
    std::size_t fail_acquire{static_cast<std::size_t>(-1)}, fail_write{static_cast<std::size_t>(-1)};
    std::atomic<bool> cancel{};
    void final() {
        if (++finals > 1) trouble = "a second final answer";
        for (auto& c : channels) {
            std::lock_guard g{c->m};
            if (! c->released) trouble = "the final answer precedes the release of the channel";
        }
        cv.notify_all();
    }
    bool check_cancel() const override { return cancel; }
    void session_id(std::size_t s) override { std::lock_guard g{m}; session = s; }
    tstatus body(std::string_view s) override {
        std::lock_guard g{m};
        if (! body_.ParseFromArray(s.data(), static_cast<int>(s.size()))) trouble = "the answer is not a message";
        final();
        return tstatus::ok;
    }
    tstatus body_head(std::string_view s) override {
        std::lock_guard g{m};
        if (finals) trouble = "the head follows the final answer";
        if (++heads > 1) trouble = "a second head";
        if (! head_.ParseFromArray(s.data(), static_cast<int>(s.size()))) trouble = "the head is not a message";
        if (! channels.empty()) { std::lock_guard h{channels.back()->m}; if (! channels.back()->writers.empty()) trouble = "rows are written before the head"; }
        return tstatus::ok;
    }
    void error(tateyama::proto::diagnostics::Record const& r) override {
        std::lock_guard g{m};
        diagnosed = true;
        code = r.code();
        message = r.message();
        final();
    }
    tstatus acquire_channel(std::string_view n, std::shared_ptr<srv::data_channel>& c, std::size_t limit) override {
        std::lock_guard g{m};
        if (finals) trouble = "a channel is acquired after the final answer";
        if (refuse_channel) return tstatus::unknown;
        auto p = std::make_shared<channel_probe>();
        p->name = n;
        p->limit = limit;
        p->fail_at = fail_acquire;
        p->fail_write = fail_write;
        channels.push_back(p);
        c = p;
        return tstatus::ok;
    }
    tstatus release_channel(srv::data_channel& c) override {
        std::lock_guard g{m};
        if (finals) trouble = "a channel is released after the final answer";
        for (auto& p : channels) if (p.get() == &c) {
            std::lock_guard h{p->m};
            if (p->released) trouble = "a channel is released twice";
            if (p->live) trouble = "a channel is released while writers are in use";
            p->released = true;
            return tstatus::ok;
        }
        trouble = "a foreign channel is released";
        return tstatus::ok;
    }
    tstatus add_blob(std::unique_ptr<srv::blob_info> b) override { std::lock_guard g{m}; blobs.emplace_back(b->channel_name()); return tstatus::ok; }
};
struct session_probe {
    std::size_t id{};
    srv::session_info info{};
    srv::session_store store{};
};
struct request_probe : srv::request {
    std::shared_ptr<session_probe> s{};
    std::string bytes{};
    std::size_t local{};
    std::size_t session_id() const override { return s->id; }
    std::size_t service_id() const override { return 3; }
    std::size_t local_id() const override { return local; }
    std::string_view payload() const override { return bytes; }
    srv::session_info const& session_info() const noexcept override { return s->info; }
    srv::session_store& session_store() noexcept override { return s->store; }
};
using answer = std::shared_ptr<response_probe>;

// ---- values on the wire
static std::string unscaled(mpz_class c, std::size_t extra) {
    // two's complement, big endian
    mpz_class lim = 1;
    std::size_t n = 1;
    while (! (c >= -(lim << (8 * n - 1)) && c < (lim << (8 * n - 1)))) ++n;
    n = std::min<std::size_t>(n + extra, std::max<std::size_t>(n, 16));
    if (c < 0) c += lim << (8 * n);
    std::string s(n, '\0');
    for (std::size_t i = 0; i < n; ++i) { mpz_class b = (c >> (8 * (n - 1 - i))) & 0xff; s[i] = static_cast<char>(b.get_ui()); }
    return s;
}
static std::string utf8_text(vh::rng& r, std::size_t max) {
    std::string s;
    static const std::vector<std::string> parts{"a", "b", " ", "Z", "\xc3\xa9", "\xe3\x81\x82", std::string(1, '\0'), "\xf0\x9f\x98\x80", "'", "%"};
    for (std::size_t n = r.below(8); n > 0; --n) { auto& p = r.pick(parts); if (s.size() + p.size() <= max) s += p; }
    return s;
}
struct param { kind k{}; bool tz{}; cm::AtomType atom{}; };
static const std::vector<param> params_of{
    {kind::boolean, false, cm::BOOLEAN}, {kind::int4, false, cm::INT4}, {kind::int8, false, cm::INT8}, {kind::float4, false, cm::FLOAT4}, {kind::float8, false, cm::FLOAT8},
    {kind::decimal, false, cm::DECIMAL}, {kind::character, false, cm::CHARACTER}, {kind::octet, false, cm::OCTET}, {kind::date, false, cm::DATE},
    {kind::time_of_day, false, cm::TIME_OF_DAY}, {kind::time_point, false, cm::TIME_POINT},
    {kind::time_of_day, true, cm::TIME_OF_DAY_WITH_TIME_ZONE}, {kind::time_point, true, cm::TIME_POINT_WITH_TIME_ZONE}};
static val rand_param(vh::rng& r, kind k, fdesc const* f = nullptr) {
    fdesc d;
    d.k = k;
    if (k == kind::decimal) { d.p = 30; d.s = 5; }
    if (f) d = *f;
    auto v = rec::rand_val(r, d, 12);
    if (v.null) return v;
    if (k == kind::character) v.s = utf8_text(r, d.len.value_or(20));
    if (k == kind::time_point && (v.i > 1000000000000LL || v.i < -1000000000000LL)) v.i %= 1000000000000LL;
    return v;
}
// offset: minutes the wire value is ahead of the stored one
static void set_param(rq::Parameter& p, std::string const& name, kind k, val const& v, std::optional<std::int32_t> offset, std::size_t extra) {
    p.set_name(name);
    if (v.null) return;
    switch (k) {
        case kind::boolean: p.set_boolean_value(v.i != 0); break;
        case kind::int4: p.set_int4_value(static_cast<std::int32_t>(v.i)); break;
        case kind::int8: p.set_int8_value(v.i); break;
        case kind::float4: p.set_float4_value(static_cast<float>(v.d)); break;
        case kind::float8: p.set_float8_value(v.d); break;
        case kind::decimal: p.mutable_decimal_value()->set_unscaled_value(unscaled(rec::coeff(v.t), extra)); p.mutable_decimal_value()->set_exponent(v.t.exponent()); break;
        case kind::character: p.set_character_value(v.s); break;
        case kind::octet: p.set_octet_value(v.s); break;
        case kind::date: p.set_date_value(v.i); break;
        case kind::time_of_day:
            if (offset) {
                p.mutable_time_of_day_with_time_zone_value()->set_offset_nanoseconds(static_cast<std::uint64_t>(((v.i + *offset * 60000000000LL) % rec::day_ns + rec::day_ns) % rec::day_ns));
                p.mutable_time_of_day_with_time_zone_value()->set_time_zone_offset(*offset);
            } else p.set_time_of_day_value(static_cast<std::uint64_t>(v.i));
            break;
        case kind::time_point:
            if (offset) {
                auto* t = p.mutable_time_point_with_time_zone_value();
                t->set_offset_seconds(v.i + *offset * 60LL);
                t->set_nano_adjustment(static_cast<std::uint32_t>(v.j));
                t->set_time_zone_offset(*offset);
            } else { p.mutable_time_point_value()->set_offset_seconds(v.i); p.mutable_time_point_value()->set_nano_adjustment(static_cast<std::uint32_t>(v.j)); }
            break;
        default: break;
    }
}
struct column_meta { kind k{}; bool tz{}; };
static column_meta of_atom(cm::AtomType a) {
    for (auto& p : params_of) if (p.atom == a) return {p.k, p.tz};
    return {kind::unknown, false};
}
// the rows in what the writers received
static std::vector<row> decode(channel_probe& c, std::vector<column_meta> const& cols, std::int32_t zone) {
    using E = jogasaki::serializer::entry_type;
    namespace js = jogasaki::serializer;
    std::vector<row> out;
    std::lock_guard g{c.m};
    for (auto& w : c.writers) {
        takatori::util::const_buffer_view b{w->data.data(), w->data.size()};
        auto p = b.begin();
        while (p != b.end()) {
            if (js::peek_type(p, b.end()) == E::end_of_contents) { js::read_end_of_contents(p, b.end()); continue; }
            auto n = js::read_row_begin(p, b.end());
            VH_CHECK(n == cols.size(), "service.columns", "a row of " << n << " values for " << cols.size() << " columns");
            row r;
            for (std::size_t i = 0; i < n; ++i) {
                val v;
                auto t = js::peek_type(p, b.end());
                if (t == E::null) { js::read_null(p, b.end()); r.push_back(v); continue; }
                v.null = false;
                auto k = cols[i].k;
                auto tz = cols[i].tz;
                auto want = k == kind::boolean || k == kind::int4 || k == kind::int8 ? E::int_ : k == kind::float4 ? E::float4 : k == kind::float8 ? E::float8 : k == kind::decimal ? E::decimal :
                    k == kind::character ? E::character : k == kind::octet ? E::octet : k == kind::date ? E::date :
                    k == kind::time_of_day ? (tz ? E::time_of_day_with_offset : E::time_of_day) : tz ? E::time_point_with_offset : E::time_point;
                if (t == E::int_ && want == E::decimal) { v.t = rec::triple{js::read_int(p, b.end())}; r.push_back(v); continue; }       // a short form of the encoding
                VH_CHECK(t == want, "service.encoding", "column " << i << " of kind " << jogasaki::meta::to_string_view(k) << " holds an entry of type " << static_cast<int>(t));
                switch (t) {
                    case E::int_: v.i = js::read_int(p, b.end()); break;
                    case E::float4: v.d = js::read_float4(p, b.end()); break;
                    case E::float8: v.d = js::read_float8(p, b.end()); break;
                    case E::decimal: v.t = js::read_decimal(p, b.end()); break;
                    case E::character: v.s = std::string{js::read_character(p, b.end())}; break;
                    case E::octet: v.s = std::string{js::read_octet(p, b.end())}; break;
                    case E::date: v.i = js::read_date(p, b.end()).days_since_epoch(); break;
                    case E::time_of_day: v.i = js::read_time_of_day(p, b.end()).time_since_epoch().count(); break;
                    case E::time_point: { auto x = js::read_time_point(p, b.end()); v.i = x.seconds_since_epoch().count(); v.j = x.subsecond().count(); break; }
                    case E::time_of_day_with_offset: {
                        auto [x, o] = js::read_time_of_day_with_offset(p, b.end());
                        VH_CHECK(o == zone, "service.zone", "a time in the zone " << o << " where " << zone << " is configured");
                        v.i = (x.time_since_epoch().count() - o * 60000000000LL + rec::day_ns) % rec::day_ns;
                        break;
                    }
                    default: {
                        auto [x, o] = js::read_time_point_with_offset(p, b.end());
                        VH_CHECK(o == zone, "service.zone", "a time point in the zone " << o << " where " << zone << " is configured");
                        v.i = x.seconds_since_epoch().count() - o * 60LL;
                        v.j = x.subsecond().count();
                        break;
                    }
                }
                r.push_back(v);
            }
            out.push_back(std::move(r));
        }
    }
    return out;
}

// ---- statements
enum class sk { query, echo, dump, insert, insert_values, remove, rows };
struct text_def {
    sk k{};
    std::string text{};
    sg::result want{};                       // of a query
    std::vector<std::size_t> ps{};           // indices of params_of: placeholders of an echo
    std::vector<row> values{};               // of an INSERT with constants
};
struct stmt { std::size_t handle{}; std::shared_ptr<text_def> t{}; bool alive{true}; };
enum class ts { active, aborted, committed, gone };
struct tx {
    std::uint64_t handle{};
    std::string id{};
    ts s{ts::active};
    bool writes{}, ro{};
    std::map<std::int64_t, row> seen{};      // the session's table as this transaction sees it
    std::optional<er::Code> why{};
};

class world {
public:
    struct session;
    world(vh::rng& r, engine& e, std::uint64_t seed, bool sequential) : r_(r), e_(e), seed_(seed), sequential_(sequential), svc_(std::shared_ptr<tateyama::api::configuration::whole>{}, e.db.get()), data_(r, e) {}
    void run(std::size_t sessions, std::size_t requests);
    std::vector<std::weak_ptr<response_probe>> sent{};
private:
    friend struct session;
    vh::rng& r_;
    engine& e_;
    std::uint64_t seed_;
    bool sequential_;
    jogasaki::api::impl::service svc_;
    sg::database data_;
    std::vector<std::shared_ptr<text_def>> queries_{};
    std::mutex m_{};
    std::set<std::size_t> foreign_tx_{}, foreign_stmt_{};       // handles of any session
    std::atomic<std::size_t> ids_{1};
    std::set<std::string> channel_names_{};
    std::string put(std::string const& what, builder f) { std::lock_guard g{m_}; return e_.put(what, std::move(f)); }
};

struct world::session {
    world& w;
    vh::rng r;
    std::size_t no;
    std::string table;
    std::vector<column> cols{};
    std::shared_ptr<session_probe> s{};
    std::vector<tx> txs{};
    std::vector<stmt> stmts{};
    std::map<std::int64_t, row> committed{};
    std::vector<std::shared_ptr<text_def>> own{};
    std::size_t local{};
    std::string log{};
    std::int32_t zone{};
    session(world& w, std::uint64_t seed, std::size_t no) : w(w), r(seed), no(no), table("W" + std::to_string(no)) {
        zone = w.e_.cfg->zone_offset();
        fdesc k;
        k.k = kind::int8;
        k.nullable = false;
        cols.push_back({"K", k});
        for (auto& p : params_of) {
            if (p.tz) continue;
            fdesc f;
            f.k = p.k;
            if (f.k == kind::character || f.k == kind::octet) f.len = 20;
            if (f.k == kind::decimal) { f.p = 30; f.s = 5; }
            cols.push_back({"C" + std::to_string(cols.size()), f});
        }
        auto o = w.e_.run(w.e_.create_table(table, cols, {{0, true}}));
        VH_CHECK(o.ok(), "service.setup", "CREATE TABLE: " << o.message);
        open();
        texts();
    }
    void open() {
        s = std::make_shared<session_probe>();
        s->id = w.ids_++;
        txs.clear();
        stmts.clear();
    }
    [[noreturn]] void fail(char const* key, std::string const& what) { vh::fail(key, "world " + std::to_string(w.seed_) + " session " + std::to_string(no) + ": " + what + " [" + log.substr(log.size() > 500 ? log.size() - 500 : 0) + "]"); }
#define MUST(cond, key, msg) do { if (! (cond)) { std::ostringstream os_; os_ << msg; fail(key, os_.str()); } } while (false)

    // ---- texts
    static var host(yugawara::compile_environment& env, std::string const& name) {
        auto d = env.host_variables ? env.host_variables->find(name) : nullptr;
        if (! d) throw yugawara::compile_failure{yugawara::compiler_code::unresolved_variable, "no placeholder " + name};
        yugawara::binding::factory b{};
        auto v = b(d);
        env.info.bind(v, d->shared_type());
        env.info.variables().bind(v, yugawara::analyzer::variable_resolution_kind::external);
        return v;
    }
    static eptr host_ref(yugawara::compile_environment& env, std::string const& name) { return reference(env, host(env, name)); }
    void texts() {
        {   // all columns as placeholders
            auto t = std::make_shared<text_def>();
            t->k = sk::insert;
            t->text = w.put("INSERT :", [name = table, n = cols.size()](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                auto p = env.schema.shared_storage_provider();
                auto tb = p->find_table(name);
                yugawara::binding::factory b{};
                std::vector<eptr> x;
                for (std::size_t i = 0; i < n; ++i) x.push_back(host_ref(env, "p" + std::to_string(i)));
                std::vector<tr::details::values_row> vr;
                vr.emplace_back(std::move(x));
                std::vector<var> cv;
                for (auto& d : tb->columns()) cv.push_back(b(d));
                return std::make_unique<tst::write>(tr::write_kind::insert, b(*p->find_primary_index(*tb)), std::move(cv), std::move(vr));
            });
            own.push_back(t);
        }
        {
            auto t = std::make_shared<text_def>();
            t->k = sk::rows;
            for (auto& c : cols) t->want.kinds.push_back(c.f.k);
            t->text = w.put("SELECT *", [name = table, cols = cols](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                plan_builder pb{env};
                auto tb = pb.tables().find_table(name);
                auto& p = pb.process();
                std::vector<tr::scan::column> m;
                std::vector<tr::emit::column> ec;
                for (std::size_t i = 0; i < cols.size(); ++i) {
                    auto v = pb.stream(sql_type(cols[i].f));
                    m.emplace_back(pb.b(tb->columns()[i]), v);
                    ec.emplace_back(v, cols[i].name);
                }
                auto& a = p.operators().emplace<tr::scan>(pb.b(*pb.tables().find_primary_index(*tb)), std::move(m));
                auto& b = p.operators().emplace<tr::emit>(std::move(ec));
                a.output() >> b.input();
                return std::move(pb.stmt);
            });
            own.push_back(t);
        }
        {
            auto t = std::make_shared<text_def>();
            t->k = sk::remove;
            t->text = w.put("DELETE :", [name = table](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                plan_builder pb{env};
                auto tb = pb.tables().find_table(name);
                auto& p = pb.process();
                auto v = pb.stream(xt::type_of(kind::int8));
                std::vector<tr::find::column> m;
                m.emplace_back(pb.b(tb->columns()[0]), v);
                std::vector<tr::details::search_key_element> ke;
                ke.emplace_back(pb.b(tb->columns()[0]), host_ref(env, "p0"));
                auto rel = pb.b(*pb.tables().find_primary_index(*tb));
                auto& a = p.operators().emplace<tr::find>(rel, std::move(m), std::move(ke));
                std::vector<tr::write::key> keys;
                keys.emplace_back(v, pb.b(tb->columns()[0]));
                auto& b = p.operators().emplace<tr::write>(tr::write_kind::delete_, rel, std::move(keys), std::vector<tr::write::column>{});
                a.output() >> b.input();
                return std::move(pb.stmt);
            });
            own.push_back(t);
        }
        for (std::size_t q = 0; q < 3; ++q) {
            auto t = std::make_shared<text_def>();
            t->k = sk::insert_values;
            for (std::size_t n = 1 + r.below(3), i = 0; i < n; ++i) t->values.push_back(rand_row());
            t->text = w.put("INSERT", [name = table, values = t->values, cols = cols](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                auto p = env.schema.shared_storage_provider();
                auto tb = p->find_table(name);
                yugawara::binding::factory b{};
                std::vector<tr::details::values_row> vr;
                for (auto& v : values) {
                    std::vector<eptr> x;
                    for (std::size_t i = 0; i < v.size(); ++i) x.push_back(literal(env, cols[i].f.k, v[i]));
                    vr.emplace_back(std::move(x));
                }
                std::vector<var> cv;
                for (auto& d : tb->columns()) cv.push_back(b(d));
                return std::make_unique<tst::write>(tr::write_kind::insert, b(*p->find_primary_index(*tb)), std::move(cv), std::move(vr));
            });
            own.push_back(t);
        }
        for (std::size_t q = 0; q < 3; ++q) {
            auto t = std::make_shared<text_def>();
            t->k = sk::echo;
            for (std::size_t n = 1 + r.below(6), i = 0; i < n; ++i) t->ps.push_back(r.below(params_of.size()));
            for (auto p : t->ps) t->want.kinds.push_back(params_of[p].k);
            t->text = w.put("SELECT :", [ps = t->ps](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                plan_builder pb{env};
                auto& p = pb.process();
                std::vector<var> vs;
                std::vector<eptr> x;
                std::vector<tr::emit::column> ec;
                for (std::size_t i = 0; i < ps.size(); ++i) {
                    auto h = host(env, "p" + std::to_string(i));
                    vs.push_back(pb.stream(typ{env.info.type_of(h).copy()}));
                    x.push_back(reference(env, h));
                    ec.emplace_back(vs.back(), "e" + std::to_string(i));
                }
                std::vector<tr::details::values_row> vr;
                vr.emplace_back(std::move(x));
                auto& a = p.operators().emplace<tr::values>(vs, std::move(vr));
                auto& b = p.operators().emplace<tr::emit>(std::move(ec));
                a.output() >> b.input();
                return std::move(pb.stmt);
            });
            own.push_back(t);
        }
    }
    std::vector<kind> kinds() const { std::vector<kind> k; for (auto& c : cols) k.push_back(c.f.k); return k; }
    row rand_row() {
        row v;
        for (std::size_t i = 0; i < cols.size(); ++i) {
            if (i == 0) { val k; k.null = false; k.i = r.range(0, 12); v.push_back(k); }
            else v.push_back(rand_param(r, cols[i].f.k, &cols[i].f));
        }
        return v;
    }

    // ---- messages
    answer send_bytes(std::string bytes, std::function<void(response_probe&)> const& setup = {}) {
        auto q = std::make_shared<request_probe>();
        q->s = s;
        q->bytes = std::move(bytes);
        q->local = local++;
        auto a = std::make_shared<response_probe>();
        if (setup) setup(*a);
        { std::lock_guard g{w.m_}; w.sent.push_back(a); }
        bool ok = w.svc_(q, a);
        MUST(ok, "service.returned", "the service returns false");
        vh::event("requests");
        return a;
    }
    answer send(rq::Request& q, std::function<void(response_probe&)> const& setup = {}) {
        q.set_service_message_version_major(jogasaki::service_message_version_major);
        q.set_service_message_version_minor(jogasaki::service_message_version_minor);
        auto a = send_bytes(q.SerializeAsString(), setup);
        return a;
    }
    void wait(answer const& a, std::string const& what) {
        log += " " + what;
        std::unique_lock lk{a->m};
        if (! a->cv.wait_for(lk, std::chrono::seconds(tsan ? 60 : 30), [&] { return a->finals > 0; })) { lk.unlock(); fail("service.answer", what + " is never answered"); }
        MUST(a->trouble.empty(), "service.protocol", what << ": " << a->trouble);
        MUST(a->session == s->id, "service.session", what << ": the answer names another session");
        for (auto& c : a->channels) {
            std::lock_guard g{c->m};
            MUST(c->trouble.empty(), "service.protocol", what << ": " << c->trouble);
            MUST(c->released && c->live == 0, "service.protocol", what << ": the channel or a writer is not released");
            vh::event("writers", c->writers.size());
        }
    }
    answer ask(rq::Request& q, std::string const& what, std::function<void(response_probe&)> const& setup = {}) { auto a = send(q, setup); wait(a, what); return a; }
    static std::optional<er::Code> error_of(rs::Response const& b, rs::Response::ResponseCase want, bool& kind_ok) {
        kind_ok = b.response_case() == want;
        if (! kind_ok) return {};
        rs::Error const* e{};
        using R = rs::Response;
#define ERR(C, f) case R::C: kind_ok = b.f().result_case() != 0; if (b.f().has_error()) e = &b.f().error(); break;
        switch (want) {
            ERR(kResultOnly, result_only) ERR(kBegin, begin) ERR(kPrepare, prepare) ERR(kExplain, explain) ERR(kDescribeTable, describe_table) ERR(kListTables, list_tables)
            ERR(kGetSearchPath, get_search_path) ERR(kGetErrorInfo, get_error_info) ERR(kExecuteResult, execute_result) ERR(kExtractStatementInfo, extract_statement_info)
            ERR(kGetLargeObjectData, get_large_object_data) ERR(kGetTransactionStatus, get_transaction_status)
            default: kind_ok = false;
        }
#undef ERR
        if (! e) return {};
        if (e->code() == er::CODE_UNSPECIFIED) kind_ok = false;       // an error says which
        return e->code();
    }
    // the error told by a final answer of the kind
    std::optional<er::Code> result(answer const& a, rs::Response::ResponseCase want, std::string const& what) {
        MUST(! a->diagnosed, "service.kind", what << " is answered by a diagnostic: " << static_cast<int>(a->code) << " " << a->message);
        bool ok = false;
        auto e = error_of(a->body_, want, ok);
        MUST(ok, "service.kind", what << " is answered by " << a->body_.ShortDebugString());
        if (e) vh::event("error:" + er::Code_Name(*e));
        return e;
    }
    static std::string name(std::optional<er::Code> const& e) { return e ? er::Code_Name(*e) : "success"; }
    void expect(answer const& a, rs::Response::ResponseCase kind, std::optional<er::Code> want, std::string const& what) {
        auto e = result(a, kind, what);
        MUST(e == want, "service.result", what << " ends with " << name(e) << " instead of " << name(want) << ": " << a->body_.ShortDebugString());
    }
    using RC = rs::Response;
    std::uint64_t no_handle() { return r.coin() ? 0x123456789abcULL + r.below(1000) : 1000000 + r.below(1000); }

    // ---- transactions
    tx* pick_tx(unsigned dead) {
        std::vector<tx*> live, all;
        for (auto& t : txs) { all.push_back(&t); if (t.s == ts::active) live.push_back(&t); }
        if (all.empty()) return nullptr;
        if (live.empty() || r.coin(dead)) return r.pick(all);
        return r.pick(live);
    }
    void begin() {
        rq::Request q;
        auto* b = q.mutable_begin();
        bool ro = false, bad = false;
        if (r.coin(80)) {
            auto* o = b->mutable_option();
            auto k = r.below(10);
            o->set_type(k < 6 ? rq::SHORT : k < 8 ? rq::LONG : rq::READ_ONLY);
            if (k >= 8) ro = true;
            if (k >= 6 && k < 8) {
                o->add_write_preserves()->set_table_name(table);
                if (r.coin(15)) { o->add_write_preserves()->set_table_name("NO_SUCH"); bad = true; }
                if (r.coin(10)) { o->add_inclusive_read_areas()->set_table_name("NO_SUCH"); bad = true; }
            }
            o->set_label("label");
            if (r.coin(40)) o->set_scan_parallel(static_cast<int>(r.below(5)));
        }
        auto a = ask(q, "BEGIN");
        auto e = result(a, RC::kBegin, "BEGIN");
        if (bad) { MUST(e == er::TARGET_NOT_FOUND_EXCEPTION, "service.begin", "BEGIN naming a missing table ends with " << name(e)); return; }
        MUST(! e, "service.begin", "BEGIN ends with " << name(e));
        auto& x = a->body_.begin().success();
        tx t;
        t.handle = x.transaction_handle().handle();
        t.id = x.transaction_id().id();
        t.ro = ro;
        MUST(t.handle != 0 && ! t.id.empty(), "service.begin", "BEGIN yields no handle or id");
        for (auto& o : txs) MUST(o.handle != t.handle && o.id != t.id, "service.begin", "BEGIN yields a handle or id in use");
        { std::lock_guard g{w.m_}; MUST(w.foreign_tx_.insert(t.handle).second, "service.begin", "two sessions got one transaction handle"); }
        t.seen = committed;
        txs.push_back(std::move(t));
        vh::event("transactions");
    }
    // the state of the transaction as the service tells it
    void status_of(tx& t) {
        rq::Request q;
        q.mutable_get_transaction_status()->mutable_transaction_handle()->set_handle(t.handle);
        auto a = ask(q, "STATUS");
        auto e = result(a, RC::kGetTransactionStatus, "GET STATUS");
        if (t.s == ts::gone) { MUST(e == er::TRANSACTION_NOT_FOUND_EXCEPTION, "service.status", "the status of a disposed transaction: " << name(e)); return; }
        MUST(! e, "service.status", "GET STATUS ends with " << name(e));
        auto st = a->body_.get_transaction_status().success().status();
        bool ok = t.s == ts::active ? st == rs::RUNNING : t.s == ts::aborted ? st == rs::ABORTED : st == rs::AVAILABLE || st == rs::STORED;
        MUST(ok, "service.status", "a transaction in state " << static_cast<int>(t.s) << " is told as " << rs::TransactionStatus_Name(st));
    }
    // after a failure that may or may not end the transaction
    void resync(tx& t) {
        rq::Request q;
        q.mutable_get_transaction_status()->mutable_transaction_handle()->set_handle(t.handle);
        auto a = ask(q, "STATUS");
        auto e = result(a, RC::kGetTransactionStatus, "GET STATUS");
        MUST(! e, "service.status", "GET STATUS ends with " << name(e));
        auto st = a->body_.get_transaction_status().success().status();
        MUST(st == rs::RUNNING || st == rs::ABORTED || st == rs::ABORTING, "service.status", "a transaction not ended by its client is " << rs::TransactionStatus_Name(st));
        if (st != rs::RUNNING) t.s = ts::aborted;
    }
    void error_info(tx& t) {
        rq::Request q;
        q.mutable_get_error_info()->mutable_transaction_handle()->set_handle(t.handle);
        auto a = ask(q, "ERROR INFO");
        auto e = result(a, RC::kGetErrorInfo, "GET ERROR INFO");
        if (t.s == ts::gone) { MUST(e == er::TRANSACTION_NOT_FOUND_EXCEPTION, "service.error_info", "the error of a disposed transaction: " << name(e)); return; }
        MUST(! e, "service.error_info", "GET ERROR INFO ends with " << name(e));
        auto& g = a->body_.get_error_info();
        if (t.s == ts::aborted && t.why) {
            MUST(g.has_success() && g.success().code() == *t.why, "service.error_info", "the transaction aborted by " << name(t.why) << " tells " << g.ShortDebugString());
            vh::event("error_info");
        } else if (t.s == ts::active && ! t.why) MUST(g.has_error_not_found(), "service.error_info", "a sound transaction tells an error " << g.ShortDebugString());
    }
    void commit(tx& t) {
        rq::Request q;
        auto* c = q.mutable_commit();
        c->mutable_transaction_handle()->set_handle(t.handle);
        bool dispose = r.coin(30);
        static const std::vector<rq::CommitStatus> cs{rq::COMMIT_STATUS_UNSPECIFIED, rq::ACCEPTED, rq::AVAILABLE, rq::STORED, rq::PROPAGATED};
        if (r.coin()) { c->mutable_option()->set_auto_dispose(dispose); c->mutable_option()->set_notification_type(r.pick(cs)); c->set_auto_dispose(r.coin()); }
        else { c->set_auto_dispose(dispose); c->set_notification_type(r.pick(cs)); }
        auto a = ask(q, "COMMIT");
        auto e = result(a, RC::kResultOnly, "COMMIT");
        switch (t.s) {
            case ts::gone: MUST(e == er::TRANSACTION_NOT_FOUND_EXCEPTION, "service.commit", "COMMIT of a disposed transaction ends with " << name(e)); return;
            case ts::aborted: case ts::committed: MUST(e == er::INACTIVE_TRANSACTION_EXCEPTION, "service.commit", "COMMIT of an ended transaction ends with " << name(e)); return;
            default: break;
        }
        MUST(! e, "service.commit", "COMMIT ends with " << name(e) << ": " << a->body_.ShortDebugString());
        if (t.writes) committed = t.seen;
        t.s = dispose ? ts::gone : ts::committed;
        vh::event(t.writes ? "commits of writes" : "commits");
    }
    void rollback(tx& t) {
        rq::Request q;
        q.mutable_rollback()->mutable_transaction_handle()->set_handle(t.handle);
        auto a = ask(q, "ROLLBACK");
        auto e = result(a, RC::kResultOnly, "ROLLBACK");
        if (t.s == ts::gone) { MUST(e == er::TRANSACTION_NOT_FOUND_EXCEPTION, "service.rollback", "ROLLBACK of a disposed transaction ends with " << name(e)); return; }
        if (t.s == ts::committed) return;       // open
        MUST(! e, "service.rollback", "ROLLBACK ends with " << name(e) << ": " << a->body_.ShortDebugString());
        t.s = ts::aborted;
        vh::event("rollbacks");
    }
    void dispose(tx& t) {
        rq::Request q;
        q.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(t.handle);
        auto a = ask(q, "DISPOSE");
        expect(a, RC::kResultOnly, {}, "DISPOSE TRANSACTION");
        t.s = ts::gone;
    }
    // ---- statements
    std::shared_ptr<text_def> pick_text(bool query) {
        for (;;) {
            if (query && r.coin(60)) return r.pick(w.queries_);
            auto t = r.pick(own);
            bool is = t->k == sk::echo || t->k == sk::rows;
            if (is == query) return t;
        }
    }
    bool has_params(text_def const& t) const { return t.k == sk::insert || t.k == sk::echo || t.k == sk::remove; }
    std::vector<param> placeholders(text_def const& t) const {
        std::vector<param> v;
        if (t.k == sk::insert) { for (auto& c : cols) for (auto& p : params_of) if (! p.tz && p.k == c.f.k) { v.push_back(p); break; } }
        else if (t.k == sk::remove) v.push_back(params_of[2]);
        else if (t.k == sk::echo) for (auto i : t.ps) v.push_back(params_of[i]);
        return v;
    }
    void prepare() {
        rq::Request q;
        auto* p = q.mutable_prepare();
        auto t = pick_text(r.coin());
        auto mode = r.below(12);
        if (mode == 0) { auto a = ask(q, "PREPARE nothing"); expect(a, RC::kPrepare, er::SQL_EXECUTION_EXCEPTION, "PREPARE without text"); return; }
        p->set_sql(t->text);
        if (mode == 1) { p->set_sql("no such statement"); auto a = ask(q, "PREPARE bad"); auto e = result(a, RC::kPrepare, "PREPARE of a malformed text"); MUST(e, "service.prepare", "PREPARE of a malformed text succeeds"); return; }
        auto ph = placeholders(*t);
        for (std::size_t i = 0; i < ph.size(); ++i) {
            auto* x = p->add_placeholders();
            x->set_name("p" + std::to_string(i));
            x->set_atom_type(ph[i].atom);
        }
        if (mode == 2) {
            auto* x = p->add_placeholders();
            x->set_name("bad");
            x->set_atom_type(r.coin() ? cm::TYPE_UNSPECIFIED : cm::DATETIME_INTERVAL);
            auto a = ask(q, "PREPARE bad placeholder");
            expect(a, RC::kPrepare, er::SQL_EXECUTION_EXCEPTION, "PREPARE with a placeholder of no type");
            return;
        }
        if (mode == 3 && ! ph.empty()) {
            p->mutable_placeholders()->RemoveLast();
            auto a = ask(q, "PREPARE missing placeholder");
            auto e = result(a, RC::kPrepare, "PREPARE without a placeholder");
            MUST(e, "service.prepare", "PREPARE without a placeholder succeeds");
            return;
        }
        auto a = ask(q, "PREPARE");
        expect(a, RC::kPrepare, {}, "PREPARE");
        auto& h = a->body_.prepare().prepared_statement_handle();
        bool rows = t->k == sk::echo || t->k == sk::rows || t->k == sk::query;
        MUST(h.handle() != 0, "service.prepare", "PREPARE yields no handle");
        MUST(h.has_result_records() == rows, "service.prepare", "PREPARE says has_result_records=" << h.has_result_records() << " for " << t->text);
        for (auto& o : stmts) MUST(! o.alive || o.handle != h.handle(), "service.prepare", "PREPARE yields a handle in use");
        stmts.push_back({h.handle(), t, true});
        vh::event("prepared");
    }
    stmt* pick_stmt(unsigned dead, std::function<bool(stmt&)> const& f) {
        std::vector<stmt*> live, all;
        for (auto& x : stmts) if (f(x)) { all.push_back(&x); if (x.alive) live.push_back(&x); }
        if (all.empty()) return nullptr;
        if (live.empty() || r.coin(dead)) { auto* p = r.pick(all); if (! p->alive) { for (auto& x : stmts) if (x.alive && x.handle == p->handle) return nullptr; } return p; }   // an address may be given again
        return r.pick(live);
    }
    void dispose_stmt() {
        auto* p = pick_stmt(20, [](stmt&) { return true; });
        rq::Request q;
        q.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(p ? p->handle : no_handle());
        auto a = ask(q, "DISPOSE STATEMENT");
        expect(a, RC::kResultOnly, {}, "DISPOSE STATEMENT");
        if (p) p->alive = false;
    }
    struct bound { std::vector<val> v; bool ok{true}; er::Code code{}; };
    bound bind(text_def const& t, ::google::protobuf::RepeatedPtrField<rq::Parameter>& out) {
        bound b;
        auto ph = placeholders(t);
        auto mode = r.below(14);
        std::size_t at = ph.empty() ? 0 : r.below(ph.size());
        for (std::size_t i = 0; i < ph.size(); ++i) {
            auto k = ph[i].k;
            val v;
            if ((t.k == sk::insert || t.k == sk::remove) && i == 0) { v.null = false; v.i = r.range(0, 12); }
            else v = rand_param(r, k, t.k == sk::insert ? &cols[i].f : nullptr);
            if (mode == 0 && i == at) { b.ok = false; b.code = er::UNRESOLVED_PLACEHOLDER_EXCEPTION; b.v.push_back(v); continue; }
            auto* p = out.Add();
            auto n = "p" + std::to_string(i);
            if (mode == 1 && i == at) {
                // a value of another type
                bool text = k != kind::character;
                p->set_name(n);
                if (text) p->set_character_value("x"); else p->set_int4_value(1);
                b.ok = false;
                b.code = er::PARAMETER_EXCEPTION;
                b.v.push_back(v);
                continue;
            }
            if (k == kind::int8 && ! v.null && r.coin(15)) { v.i = static_cast<std::int32_t>(v.i); set_param(*p, n, kind::int4, v, {}, 0); b.v.push_back(v); continue; }     // a narrower type is accepted
            std::optional<std::int32_t> off;
            if ((k == kind::time_of_day || k == kind::time_point) && (ph[i].tz ? r.coin(85) : r.coin(15))) off = static_cast<std::int32_t>(r.range(-840, 840));
            set_param(*p, n, k, v, off, r.below(3));
            b.v.push_back(v);
            if (mode == 2 && i == at) { auto old = *p; auto nv = old; p->clear_value(); p->set_name(n); *out.Add() = nv; }      // of two values for a name the last one counts
        }
        if (mode == 3) { auto* p = out.Add(); p->set_name("unused"); p->set_int4_value(1); }
        return b;
    }
    static std::map<int, std::int64_t> counters(answer const& a) {
        std::map<int, std::int64_t> m;
        for (auto& c : a->body_.execute_result().success().counters()) m[c.type()] += c.value();
        return m;
    }
    bool writer_free(tx const* me) { for (auto& t : txs) if (t.s == ts::active && t.writes && &t != me) return false; return true; }
    // outcome of a statement on the session's table; nothing when it fails
    struct effect { bool ok{true}; er::Code code{}; std::map<std::int64_t, row> now; std::map<int, std::int64_t> count; };
    effect apply(tx const& t, text_def const& d, std::vector<val> const& v) {
        effect x;
        x.now = t.seen;
        if (d.k == sk::remove) { auto n = x.now.erase(v[0].i); x.count[rs::ExecuteResult::DELETED_ROWS] = static_cast<std::int64_t>(n); return x; }
        std::vector<row> rows;
        if (d.k == sk::insert) rows.push_back(v); else rows = d.values;
        for (auto& w : rows) {
            // texts of stored columns hold no NUL
            for (auto& c : w) if (c.s.find('\0') != std::string::npos && cols[static_cast<std::size_t>(&c - w.data())].f.k == kind::character && ! c.null) { x.ok = false; x.code = er::INVALID_RUNTIME_VALUE_EXCEPTION; return x; }
            if (! x.now.emplace(w[0].i, w).second) { x.ok = false; x.code = er::UNIQUE_CONSTRAINT_VIOLATION_EXCEPTION; return x; }
            ++x.count[rs::ExecuteResult::INSERTED_ROWS];
        }
        return x;
    }
    std::optional<er::Code> dead(tx const& t) {
        if (t.s == ts::gone) return er::TRANSACTION_NOT_FOUND_EXCEPTION;
        if (t.s != ts::active) return er::INACTIVE_TRANSACTION_EXCEPTION;
        return {};
    }
    void write() {
        auto* t = pick_tx(8);
        if (! t) return begin();
        if (t->s == ts::active && ! writer_free(t)) return;
        // one writing transaction at a time sees the table: those that looked before it do not write
        if (t->s == ts::active && ! t->writes && t->seen.size() != committed.size()) return;
        bool by_text = r.coin(40);
        rq::Request q;
        std::shared_ptr<text_def> d;
        bound b;
        stmt* p{};
        std::string what;
        if (by_text) {
            for (;;) { d = r.pick(own); if (d->k == sk::insert_values) break; }
            auto* x = q.mutable_execute_statement();
            x->mutable_transaction_handle()->set_handle(t->handle);
            x->set_sql(d->text);
            what = d->text;
        } else {
            p = pick_stmt(6, [](stmt& s) { return s.t->k == sk::insert || s.t->k == sk::remove || s.t->k == sk::insert_values; });
            if (! p) return prepare();
            d = p->t;
            auto* x = q.mutable_execute_prepared_statement();
            x->mutable_transaction_handle()->set_handle(t->handle);
            x->mutable_prepared_statement_handle()->set_handle(p->handle);
            b = bind(*d, *x->mutable_parameters());
            what = "prepared " + d->text;
        }
        bool fresh = t->s == ts::active && ! t->writes;
        if (fresh) t->seen = committed;
        auto a = ask(q, what);
        auto e = result(a, RC::kExecuteResult, what);
        if (p && ! p->alive) { MUST(e, "service.handle", what << " succeeds through a disposed handle"); if (t->s == ts::active) { resync(*t); t->why = {}; if (t->s == ts::aborted) t->why = {}; } return; }
        if (! b.ok) { MUST(e == b.code, "service.parameter", what << " with wrong parameters ends with " << name(e) << " instead of " << name(b.code)); if (t->s == ts::active) { resync(*t); if (t->s == ts::aborted) t->why = b.code; } vh::event("wrong parameters"); return; }
        if (auto x = dead(*t)) { MUST(e == x, "service.dead", what << " on an ended transaction ends with " << name(e) << " instead of " << name(x)); return; }
        if (t->ro && d->k == sk::remove && ! e && apply(*t, *d, b.v).count[rs::ExecuteResult::DELETED_ROWS] == 0) return;     // nothing is written
        if (t->ro) { MUST(e == er::WRITE_OPERATION_BY_RTX_EXCEPTION || (e && ! apply(*t, *d, b.v).ok), "service.readonly", what << " in a read only transaction ends with " << name(e)); t->s = ts::aborted; t->why = e; return; }
        auto x = apply(*t, *d, b.v);
        if (! x.ok) { MUST(e == x.code, "service.write", what << " ends with " << name(e) << " instead of " << name(x.code)); t->s = ts::aborted; t->why = e; vh::event("failed writes"); return; }
        MUST(! e, "service.write", what << " ends with " << name(e) << ": " << a->body_.ShortDebugString() << " with " << (d->k == sk::insert_values ? show(d->values.empty() ? row{} : d->values[0], kinds()) : show(b.v, kinds())));
        auto c = counters(a);
        for (auto it = c.begin(); it != c.end();) it = it->second == 0 ? c.erase(it) : std::next(it);
        for (auto it = x.count.begin(); it != x.count.end();) it = it->second == 0 ? x.count.erase(it) : std::next(it);
        MUST(c == x.count, "service.counters", what << " tells other counts: " << a->body_.ShortDebugString());
        t->seen = x.now;
        t->writes = true;
        vh::event("writes");
    }
    void check_head(answer const& a, std::vector<kind> const& kinds, std::string const& what, std::vector<column_meta>& cs) {
        MUST(a->heads == 1 && a->head_.has_execute_query(), "service.head", what << " has " << a->heads << " heads");
        MUST(a->channels.size() == 1 && a->head_.execute_query().name() == a->channels[0]->name, "service.head", what << ": the head names another channel");
        { std::lock_guard g{w.m_}; MUST(w.channel_names_.insert(a->channels[0]->name).second, "service.head", "two results in one channel " << a->channels[0]->name); }
        std::vector<kind> ks;
        for (auto& c : a->head_.execute_query().record_meta().columns()) { cs.push_back(of_atom(c.atom_type())); ks.push_back(cs.back().k); }
        MUST(ks == kinds, "service.head", what << ": the head tells other columns: " << a->head_.ShortDebugString());
    }
    void query() {
        auto* t = pick_tx(8);
        if (! t) return begin();
        bool by_text = r.coin(40);
        rq::Request q;
        std::shared_ptr<text_def> d;
        bound b;
        stmt* p{};
        if (by_text) {
            do d = pick_text(true); while (d->k == sk::echo);
            auto* x = q.mutable_execute_query();
            x->mutable_transaction_handle()->set_handle(t->handle);
            x->set_sql(d->text);
        } else {
            p = pick_stmt(6, [](stmt& s) { return s.t->k == sk::query || s.t->k == sk::rows || s.t->k == sk::echo; });
            if (! p) return prepare();
            d = p->t;
            auto* x = q.mutable_execute_prepared_query();
            x->mutable_transaction_handle()->set_handle(t->handle);
            x->mutable_prepared_statement_handle()->set_handle(p->handle);
            b = bind(*d, *x->mutable_parameters());
        }
        auto what = (by_text ? "query " : "prepared ") + d->text + (d->k == sk::query ? " [" + d->want.text + "]" : "");
        auto fault = r.below(16);
        auto a = ask(q, what.substr(0, 40), [&](response_probe& o) {
            if (fault == 0) o.refuse_channel = true;
            if (fault == 2) o.fail_write = r.below(8);
        });
        auto e = result(a, RC::kResultOnly, what);
        if (p && ! p->alive) { MUST(e, "service.handle", what << " succeeds through a disposed handle"); MUST(a->heads == 0, "service.head", what << " through a disposed handle has a head"); if (t->s == ts::active) resync(*t); return; }
        if (! b.ok) { MUST(e == b.code, "service.parameter", what << " with wrong parameters ends with " << name(e) << " instead of " << name(b.code) << ": " << a->body_.ShortDebugString() << " request " << q.ShortDebugString()); if (t->s == ts::active) { resync(*t); } vh::event("wrong parameters"); return; }
        if (t->s == ts::gone) { MUST(e == er::TRANSACTION_NOT_FOUND_EXCEPTION, "service.dead", what << " on a disposed transaction ends with " << name(e)); return; }
        if (fault == 0) { MUST(e == er::SQL_LIMIT_REACHED_EXCEPTION && a->heads == 0, "service.channel", what << " without a channel ends with " << name(e)); if (t->s == ts::active) resync(*t); return; }
        if (t->s != ts::active) { MUST(e == er::INACTIVE_TRANSACTION_EXCEPTION, "service.dead", what << " on an ended transaction ends with " << name(e)); return; }
        std::vector<column_meta> cs;
        check_head(a, d->want.kinds, what, cs);
        bool broken = a->channels[0]->failed;
        for (auto& x : a->channels[0]->writers) if (x->writes > x->fail_at) broken = true;
        if (broken) {
            MUST(e, "service.broken", what << " succeeds although its rows could not be written");
            vh::event("broken channels");
            resync(*t);
            return;
        }
        if (d->want.error) {
            MUST(e, "service.query", what << " evaluates rows with errors, and yet succeeds");
            t->s = ts::aborted;
            t->why = e;
            vh::event("failed queries");
            return;
        }
        MUST(! e, "service.query", what << " ends with " << name(e) << ": " << a->body_.ShortDebugString());
        std::vector<row> got = decode(*a->channels[0], cs, zone), want;
        if (d->k == sk::query) want = d->want.rows;
        else if (d->k == sk::echo) want.push_back(b.v);
        else {
            if (! t->writes && ! writer_free(t)) return;            // another transaction writes meanwhile
            if (! t->writes && t->seen.size() != committed.size()) return;
            if (! t->writes) { for (auto& [k, x] : committed) want.push_back(x); std::vector<row> old; for (auto& [k, x] : t->seen) old.push_back(x); if (! sg::row_diff(d->want.kinds, old, want).empty()) return; }
            else for (auto& [k, x] : t->seen) want.push_back(x);
        }
        auto df = sg::row_diff(d->want.kinds, want, got);
        MUST(df.empty(), "service.rows", what << " " << df);
        if (d->k == sk::query && d->want.ordered && a->channels[0]->writers.size() == 1) { auto od = sg::order_diff(d->want, got); MUST(od.empty(), "service.order", what << " " << od); }
        vh::event("rows", got.size());
        vh::event("queries");
        if (! got.empty()) vh::nontrivial(vh::hash(what) + got.size());
    }
    // several queries on one transaction, none waiting for the others
    void burst() {
        auto* t = pick_tx(0);
        if (! t || t->s != ts::active) return begin();
        std::vector<std::pair<answer, std::shared_ptr<text_def>>> as;
        for (std::size_t n = 2 + r.below(4); n > 0; --n) {
            auto d = r.pick(w.queries_);
            if (d->want.error) continue;
            rq::Request q;
            q.mutable_execute_query()->mutable_transaction_handle()->set_handle(t->handle);
            q.mutable_execute_query()->set_sql(d->text);
            as.emplace_back(send(q), d);
        }
        for (auto& [a, d] : as) {
            wait(a, "burst");
            auto e = result(a, RC::kResultOnly, d->text);
            MUST(! e, "service.query", d->text << " in a burst ends with " << name(e));
            std::vector<column_meta> cs;
            check_head(a, d->want.kinds, d->text, cs);
            auto df = sg::row_diff(d->want.kinds, d->want.rows, decode(*a->channels[0], cs, zone));
            MUST(df.empty(), "service.rows", d->text << " [" << d->want.text << "] in a burst " << df);
        }
        vh::event("bursts");
    }
    // a query that is sent as a statement, and a statement that is sent as a query
    void mismatch() {
        auto* t = pick_tx(0);
        if (! t || t->s != ts::active) return begin();
        rq::Request q;
        if (r.coin()) {
            std::shared_ptr<text_def> d;
            for (;;) { d = r.pick(own); if (d->k == sk::insert_values) break; }
            q.mutable_execute_query()->mutable_transaction_handle()->set_handle(t->handle);
            q.mutable_execute_query()->set_sql(d->text);
            auto a = ask(q, "query INSERT");
            expect(a, RC::kResultOnly, er::INCONSISTENT_STATEMENT_EXCEPTION, "a query without rows");
            MUST(a->heads == 0 && a->channels.empty(), "service.head", "a query without rows has a head");
            resync(*t);
        } else {
            auto d = r.pick(w.queries_);
            if (d->want.error) return;
            q.mutable_execute_statement()->mutable_transaction_handle()->set_handle(t->handle);
            q.mutable_execute_statement()->set_sql(d->text);
            auto a = ask(q, "statement SELECT");
            (void) result(a, RC::kExecuteResult, "a query sent as a statement");
            resync(*t);
        }
    }
    // ---- other requests
    void explain() {
        rq::Request q;
        if (r.coin()) {
            auto d = r.pick(w.queries_);
            auto before = held();
            q.mutable_explain_by_text()->set_sql(r.coin(85) ? d->text : r.coin() ? "" : "no such statement");
            bool good = q.explain_by_text().sql() == d->text;
            auto a = ask(q, "EXPLAIN TEXT");
            auto e = result(a, RC::kExplain, "EXPLAIN");
            MUST(! e == good, "service.explain", "EXPLAIN of " << q.explain_by_text().sql() << " ends with " << name(e));
            if (good) columns(a->body_.explain().success().columns(), d->want.kinds, "EXPLAIN");
            MUST(held() == before, "service.explain", "EXPLAIN leaves a prepared statement behind");
        } else {
            auto* p = pick_stmt(15, [](stmt&) { return true; });
            if (! p) return prepare();
            auto* x = q.mutable_explain();
            x->mutable_prepared_statement_handle()->set_handle(p->handle);
            auto b = bind(*p->t, *x->mutable_parameters());
            auto a = ask(q, "EXPLAIN");
            auto e = result(a, RC::kExplain, "EXPLAIN");
            if (! p->alive) MUST(e == er::STATEMENT_NOT_FOUND_EXCEPTION, "service.explain", "EXPLAIN of a disposed statement ends with " << name(e));
            else if (! b.ok) MUST(e == b.code, "service.explain", "EXPLAIN with wrong parameters ends with " << name(e));
            else {
                MUST(! e, "service.explain", "EXPLAIN ends with " << name(e));
                columns(a->body_.explain().success().columns(), p->t->want.kinds, "EXPLAIN");
            }
        }
        vh::event("explains");
    }
    // prepared statements and transactions this session holds
    std::pair<std::size_t, std::size_t> held() {
        auto* d = w.e_.db.get();
        auto a = d->find_statement_store(s->id);
        auto b = d->find_transaction_store(s->id);
        return {a ? a->size() : 0, b ? b->size() : 0};
    }
    void columns(::google::protobuf::RepeatedPtrField<cm::Column> const& cs, std::vector<kind> const& kinds, std::string const& what) {
        std::vector<kind> ks;
        for (auto& c : cs) ks.push_back(of_atom(c.atom_type()).k);
        MUST(ks == kinds, "service.columns", what << " tells other columns");
    }
    void catalog() {
        rq::Request q;
        switch (r.below(4)) {
            case 0: {
                q.mutable_describe_table()->set_name(table);
                auto a = ask(q, "DESCRIBE");
                expect(a, RC::kDescribeTable, {}, "DESCRIBE TABLE");
                auto& d = a->body_.describe_table().success();
                MUST(d.table_name() == table && d.columns_size() == static_cast<int>(cols.size()), "service.describe", "DESCRIBE TABLE tells " << d.ShortDebugString());
                for (std::size_t i = 0; i < cols.size(); ++i) {
                    auto& c = d.columns(static_cast<int>(i));
                    auto& f = cols[i].f;
                    bool ok = c.name() == cols[i].name && of_atom(c.atom_type()).k == f.k && c.nullable() == f.nullable;
                    if (f.k == kind::character || f.k == kind::octet) ok = ok && c.length() == 20 && c.varying();
                    if (f.k == kind::decimal) ok = ok && c.precision() == 30 && c.scale() == 5;
                    MUST(ok, "service.describe", "column " << cols[i].name << " is told as " << c.ShortDebugString());
                }
                MUST(d.primary_key_size() == 1 && d.primary_key(0) == "K", "service.describe", "DESCRIBE TABLE tells another primary key");
                break;
            }
            case 1: {
                q.mutable_describe_table()->set_name(r.coin() ? "NO_SUCH" : "");
                auto a = ask(q, "DESCRIBE missing");
                expect(a, RC::kDescribeTable, er::TARGET_NOT_FOUND_EXCEPTION, "DESCRIBE TABLE of no table");
                break;
            }
            case 2: {
                q.mutable_listtables();
                auto a = ask(q, "LIST TABLES");
                expect(a, RC::kListTables, {}, "LIST TABLES");
                std::multiset<std::string> ns;
                for (auto& n : a->body_.list_tables().success().table_path_names()) if (n.identifiers_size() > 0) ns.insert(n.identifiers(n.identifiers_size() - 1).label());
                MUST(ns.count(table) == 1, "service.list", "LIST TABLES tells " << table << " " << ns.count(table) << " times");
                for (auto& t : w.data_.tables) MUST(ns.count(t.name) == 1, "service.list", "LIST TABLES tells " << t.name << " " << ns.count(t.name) << " times");
                break;
            }
            default: {
                q.mutable_getsearchpath();
                auto a = ask(q, "SEARCH PATH");
                expect(a, RC::kGetSearchPath, {}, "GET SEARCH PATH");
            }
        }
    }
    void extract() {
        rq::Request in;
        auto* t = pick_tx(20);
        auto* p = pick_stmt(0, [](stmt& x) { return x.alive; });
        std::string text, id;
        bool good = true;
        auto h = t ? t->handle : no_handle();
        if (t && t->s != ts::gone) id = t->id;
        switch (r.below(5)) {
            case 0: text = "any text"; in.mutable_execute_statement()->set_sql(text); in.mutable_execute_statement()->mutable_transaction_handle()->set_handle(h); break;
            case 1: text = "other text"; in.mutable_execute_query()->set_sql(text); in.mutable_execute_query()->mutable_transaction_handle()->set_handle(h); break;
            case 2: case 3:
                if (! p) return;
                text = p->t->text;
                in.mutable_execute_prepared_query()->mutable_prepared_statement_handle()->set_handle(p->handle);
                in.mutable_execute_prepared_query()->mutable_transaction_handle()->set_handle(h);
                break;
            default: in.mutable_begin(); good = false;
        }
        rq::Request q;
        q.mutable_extract_statement_info()->set_payload(in.SerializeAsString());
        q.mutable_extract_statement_info()->set_session_id(s->id);
        auto a = ask(q, "EXTRACT");
        auto e = result(a, RC::kExtractStatementInfo, "EXTRACT STATEMENT INFO");
        MUST(! e == good, "service.extract", "EXTRACT STATEMENT INFO ends with " << name(e));
        if (! good) return;
        auto& x = a->body_.extract_statement_info().success();
        MUST(x.sql() == text, "service.extract", "EXTRACT tells the text " << x.sql() << " of " << text);
        MUST(x.transaction_id().id() == id, "service.extract", "EXTRACT tells the transaction " << x.transaction_id().id() << " of " << id);
    }
    void files() {
        auto* t = pick_tx(0);
        auto* p = pick_stmt(0, [](stmt& x) { return x.alive && (x.t->k == sk::rows || x.t->k == sk::insert); });
        if (! p) return prepare();
        rq::Request q;
        if (p->t->k == sk::rows) {
            if (! t || t->s != ts::active) return begin();
            auto* x = q.mutable_execute_dump();
            x->mutable_transaction_handle()->set_handle(t->handle);
            x->mutable_prepared_statement_handle()->set_handle(p->handle);
            x->set_directory("/nonexistent/directory");
            auto a = ask(q, "DUMP");
            auto e = result(a, RC::kResultOnly, "DUMP");
            if (! t->seen.empty()) MUST(e, "service.dump", "DUMP to no directory succeeds");
            resync(*t);
        } else {
            auto* x = q.mutable_execute_load();
            if (t && r.coin(70)) x->mutable_transaction_handle()->set_handle(t->handle); else t = nullptr;
            x->mutable_prepared_statement_handle()->set_handle(p->handle);
            x->add_file("/nonexistent/file.parquet");
            auto a = ask(q, "LOAD");
            auto e = result(a, RC::kExecuteResult, "LOAD");
            MUST(e, "service.load", "LOAD of no file succeeds");
            if (t && t->s == ts::active) resync(*t);
        }
    }
    void lob() {
        auto* t = pick_tx(0);
        if (! t || t->s != ts::active) return begin();
        rq::Request q;
        auto* g = q.mutable_get_large_object_data();
        g->mutable_transaction_handle()->set_handle(t->handle);
        auto mode = r.below(3);
        auto id = 10000 + r.below(1000);
        if (mode != 0) {
            g->mutable_reference()->set_object_id(id);
            g->mutable_reference()->set_provider(cm::DATASTORE);
            auto tag = jogasaki::utils::assign_reference_tag(t->handle, id);
            g->mutable_reference()->set_reference_tag(mode == 1 ? tag.value_or(0) + 1 : tag.value_or(0));
        }
        auto a = ask(q, "LOB");
        if (mode == 0) { expect(a, RC::kGetLargeObjectData, er::SQL_EXECUTION_EXCEPTION, "GET LOB without reference"); return; }
        MUST(a->blobs.empty() || mode == 2, "service.lob", "a large object is handed out under a wrong tag");
        if (mode == 1) { MUST(a->diagnosed && a->code == diag::PERMISSION_ERROR, "service.lob", "GET LOB with a wrong tag is answered by " << a->body_.ShortDebugString()); }
        resync(*t);
    }
    // requests without what they need
    void incomplete() {
        rq::Request q;
        std::string what;
        using C = rs::Response;
        C::ResponseCase k{};
        auto* t = pick_tx(0);
        bool hurt = false;
        auto h = [&](cm::Transaction* x) { if (t) { x->set_handle(t->handle); hurt = true; } };
        switch (r.below(17)) {
            case 0: q.mutable_commit(); k = C::kResultOnly; break;
            case 1: q.mutable_rollback(); k = C::kResultOnly; break;
            case 2: q.mutable_dispose_transaction(); k = C::kResultOnly; break;
            case 3: q.mutable_get_error_info(); k = C::kGetErrorInfo; break;
            case 4: q.mutable_get_transaction_status(); k = C::kGetTransactionStatus; break;
            case 5: q.mutable_execute_statement()->set_sql("x"); k = C::kExecuteResult; break;
            case 6: q.mutable_execute_query()->set_sql("x"); k = C::kResultOnly; break;
            case 7: q.mutable_execute_prepared_statement(); k = C::kExecuteResult; break;
            case 8: q.mutable_execute_prepared_query(); k = C::kResultOnly; break;
            case 9: q.mutable_dispose_prepared_statement(); k = C::kResultOnly; break;
            case 10: q.mutable_explain(); k = C::kExplain; break;
            case 11: q.mutable_explain_by_text(); k = C::kExplain; break;
            case 12: q.mutable_extract_statement_info(); k = C::kExtractStatementInfo; break;
            case 13: q.mutable_execute_dump(); k = C::kResultOnly; break;
            case 14: q.mutable_execute_load(); k = C::kExecuteResult; break;
            case 15: h(q.mutable_execute_prepared_query()->mutable_transaction_handle()); if (! t) return; k = C::kResultOnly; break;
            default: h(q.mutable_execute_query()->mutable_transaction_handle()); if (! t) return; k = C::kResultOnly; break;
        }
        auto a = ask(q, "incomplete " + std::to_string(q.request_case()));
        auto e = result(a, k, "a request without its parts: " + q.ShortDebugString());
        MUST(e, "service.incomplete", q.ShortDebugString() << " succeeds without its parts");
        if (hurt && t->s == ts::active) resync(*t);
        vh::event("incomplete");
    }
    // what other sessions hold cannot be reached
    void foreign() {
        if (! w.e_.cfg->enable_session_store()) return;
        std::size_t h{};
        { std::lock_guard g{w.m_}; if (w.foreign_tx_.empty()) return; auto it = w.foreign_tx_.begin(); std::advance(it, static_cast<long>(r.below(w.foreign_tx_.size()))); h = *it; }
        for (auto& t : txs) if (t.handle == h) return;
        rq::Request q;
        rs::Response::ResponseCase k{};
        std::optional<er::Code> want{er::TRANSACTION_NOT_FOUND_EXCEPTION};
        switch (r.below(6)) {
            case 0: q.mutable_commit()->mutable_transaction_handle()->set_handle(h); k = RC::kResultOnly; break;
            case 1: q.mutable_rollback()->mutable_transaction_handle()->set_handle(h); k = RC::kResultOnly; break;
            case 2: q.mutable_get_transaction_status()->mutable_transaction_handle()->set_handle(h); k = RC::kGetTransactionStatus; break;
            case 3: q.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(h); k = RC::kResultOnly; want = {}; break;
            case 4: q.mutable_execute_query()->mutable_transaction_handle()->set_handle(h); q.mutable_execute_query()->set_sql(r.pick(w.queries_)->text); k = RC::kResultOnly; break;
            default: q.mutable_get_error_info()->mutable_transaction_handle()->set_handle(h); k = RC::kGetErrorInfo; break;
        }
        auto a = ask(q, "foreign");
        expect(a, k, want, "a transaction of another session: " + q.ShortDebugString());
        vh::event("foreign");
    }
    // messages of no meaning, from a session of their own
    void hostile() {
        auto keep = s;
        auto o = std::make_shared<session_probe>();
        o->id = w.ids_++;
        s = o;
        struct back { session& x; std::shared_ptr<session_probe> k, o; ~back() { o->store.dispose(); x.s = k; } } b{*this, keep, o};
        rq::Request q;
        q.mutable_begin();
        auto a = ask(q, "BEGIN");
        auto h = a->body_.begin().success().transaction_handle().handle();
        std::vector<std::pair<std::size_t, std::shared_ptr<text_def>>> ss;
        for (auto& d : own) if (has_params(*d)) {
            rq::Request p;
            p.mutable_prepare()->set_sql(d->text);
            auto ph = placeholders(*d);
            for (std::size_t i = 0; i < ph.size(); ++i) { auto* x = p.mutable_prepare()->add_placeholders(); x->set_name("p" + std::to_string(i)); x->set_atom_type(ph[i].atom); }
            auto x = ask(p, "PREPARE");
            expect(x, RC::kPrepare, {}, "PREPARE");
            ss.emplace_back(x->body_.prepare().prepared_statement_handle().handle(), d);
        }
        for (std::size_t n = 6; n > 0; --n) {
            std::string bytes;
            auto mode = r.below(5);
            std::optional<diag> must;
            if (mode == 0) { bytes = r.bytes(r.below(60)); }
            else {
                rq::Request m;
                auto& [sh, d] = r.pick(ss);
                auto extreme = [&](kind k, rq::Parameter& p, bool tz) {
                    switch (k) {
                        case kind::decimal:
                            p.mutable_decimal_value()->set_unscaled_value(r.coin(30) ? std::string{"\xff", 1} + std::string(16, '\0') : r.bytes(r.below(20)));
                            p.mutable_decimal_value()->set_exponent(r.coin() ? r.edgy<std::int32_t>() : static_cast<std::int32_t>(r.range(-50, 50)));
                            break;
                        case kind::date: p.set_date_value(r.edgy<std::int64_t>()); break;
                        case kind::time_of_day:
                            if (! tz) p.set_time_of_day_value(r.edgy<std::uint64_t>());
                            else { p.mutable_time_of_day_with_time_zone_value()->set_offset_nanoseconds(r.edgy<std::uint64_t>()); p.mutable_time_of_day_with_time_zone_value()->set_time_zone_offset(r.edgy<std::int32_t>()); }
                            break;
                        case kind::time_point:
                            if (! tz) { p.mutable_time_point_value()->set_offset_seconds(r.edgy<std::int64_t>() / 4); p.mutable_time_point_value()->set_nano_adjustment(r.edgy<std::uint32_t>()); }
                            else { auto* t = p.mutable_time_point_with_time_zone_value(); t->set_offset_seconds(r.edgy<std::int64_t>() / 4); t->set_nano_adjustment(r.edgy<std::uint32_t>()); t->set_time_zone_offset(r.edgy<std::int32_t>()); }
                            break;
                        case kind::character: p.mutable_clob()->set_channel_name("no such"); break;
                        case kind::octet: if (r.coin()) p.set_reference_column_position(r.next()); else p.set_reference_column_name("c"); break;
                        default: break;
                    }
                };
                auto fill = [&](::google::protobuf::RepeatedPtrField<rq::Parameter>& ps) {
                    (void) bind(*d, ps);
                    auto ph = placeholders(*d);
                    for (auto& p : ps) {
                        auto i = static_cast<std::size_t>(std::strtoul(p.name().c_str() + 1, nullptr, 10));
                        if (p.name()[0] == 'p' && i < ph.size() && (mode != 4 || r.coin(30))) extreme(ph[i].k, p, ph[i].tz || r.coin(20));
                    }
                };
                if (d->k == sk::echo) {
                    auto* x = m.mutable_execute_prepared_query();
                    x->mutable_transaction_handle()->set_handle(h);
                    x->mutable_prepared_statement_handle()->set_handle(sh);
                    fill(*x->mutable_parameters());
                } else {
                    auto* x = m.mutable_execute_prepared_statement();
                    x->mutable_transaction_handle()->set_handle(h);
                    x->mutable_prepared_statement_handle()->set_handle(sh);
                    fill(*x->mutable_parameters());
                }
                if (mode == 3 && r.coin(40)) { m.Clear(); if (r.coin()) { m.mutable_batch(); must = diag::UNSUPPORTED_OPERATION; } else must = diag::INVALID_REQUEST; }
                m.set_service_message_version_major(jogasaki::service_message_version_major);
                if (mode == 3 && ! must && ! w.e_.cfg->skip_smv_check()) { m.set_service_message_version_major(jogasaki::service_message_version_major + 1 + r.below(3)); must = diag::INVALID_REQUEST; }
                bytes = m.SerializeAsString();
                if (mode == 4) for (std::size_t k = 1 + r.below(3); k > 0 && ! bytes.empty(); --k) {
                    auto at = r.below(bytes.size());
                    if (r.coin(70)) bytes[at] = static_cast<char>(r.below(256));
                    else if (r.coin()) bytes.erase(at, 1);
                    else bytes.resize(at);
                }
            }
            rq::Request seen;
            bool parsed = seen.ParseFromArray(bytes.data(), static_cast<int>(bytes.size()));
            if (! parsed) must = diag::INVALID_REQUEST;
            else if (seen.service_message_version_major() != jogasaki::service_message_version_major && ! w.e_.cfg->skip_smv_check()) must = diag::INVALID_REQUEST;
            auto x = send_bytes(bytes);
            std::string hex;
            for (unsigned char c : bytes) { char t[4]; snprintf(t, sizeof t, "%02x", c); hex += t; }
            wait(x, "message " + hex);
            if (must) MUST(x->diagnosed && x->code == *must, "service.hostile", "the message " << hex << " is answered by " << (x->diagnosed ? std::to_string(static_cast<int>(x->code)) : x->body_.ShortDebugString()));
            else MUST(x->diagnosed || x->body_.response_case() != 0, "service.hostile", "the message " << hex << " gets an empty answer");
            vh::event(must ? "rejected messages" : "extreme messages");
            if (! w.e_.cfg->enable_session_store()) {
                // by chance the message made something nobody knows
                rq::Request un;
                if (x->body_.has_begin() && x->body_.begin().has_success()) un.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(x->body_.begin().success().transaction_handle().handle());
                else if (x->body_.has_prepare() && x->body_.prepare().has_prepared_statement_handle()) un.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(x->body_.prepare().prepared_statement_handle().handle());
                else continue;
                (void) ask(un, "DISPOSE");
                vh::event("accidental handles");
            }
        }
        // nothing this session did is kept
        rq::Request rb;
        rb.mutable_rollback()->mutable_transaction_handle()->set_handle(h);
        (void) ask(rb, "ROLLBACK");
        rq::Request di;
        di.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(h);
        (void) ask(di, "DISPOSE");
    }
    // the session ends: its transactions and statements go with it
    void end() {
        auto id = s->id;
        s->store.dispose();
        auto [a, b] = held();
        if (w.e_.cfg->enable_session_store()) {
            MUST(a == 0 && b == 0, "service.session_end", "after the end of session " << id << " it holds " << a << " statements and " << b << " transactions");
            for (auto& t : txs) t.s = ts::gone;
            for (auto& x : stmts) x.alive = false;
            if (! txs.empty()) { auto& t = r.pick(txs); auto old = t; status_of(old); }
        } else {
            for (auto& t : txs) if (t.s != ts::gone) dispose(t);
            for (auto& x : stmts) if (x.alive) { rq::Request q; q.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(x.handle); expect(ask(q, "DISPOSE STATEMENT"), RC::kResultOnly, {}, "DISPOSE STATEMENT"); }
        }
        vh::event("sessions");
        open();
    }
    void step() {
        auto x = r.below(100);
        if (x < 10) return begin();
        if (x < 18) return prepare();
        if (x < 36) return write();
        if (x < 58) return query();
        if (x < 62) return burst();
        if (x < 64) return mismatch();
        if (x < 67) return explain();
        if (x < 70) return catalog();
        if (x < 72) return extract();
        if (x < 74) return files();
        if (x < 76) return incomplete();
        if (x < 78) return foreign();
        if (x < 79) return lob();
        if (x < 81) return dispose_stmt();
        if (x < 83) return hostile();
        if (x < 84 && txs.size() > 6) return end();
        auto* t = pick_tx(15);
        if (! t) return begin();
        if (x < 90) return commit(*t);
        if (x < 92) return rollback(*t);
        if (x < 94) return dispose(*t);
        if (x < 97) return status_of(*t);
        return error_info(*t);
    }
};

void world::run(std::size_t sessions, std::size_t requests) {
    for (std::size_t i = 0; i < 2; ++i) data_.make_table(25);
    for (std::size_t q = 0; q < 8; ++q) {
        auto t = std::make_shared<text_def>();
        t->k = sk::query;
        auto s = r_.next();
        bool errs = r_.coin(20);
        auto steps = r_.below(6) + 1;
        auto filled = std::make_shared<bool>(false);
        t->text = e_.put("SELECT", [this, s, errs, steps, t = t.get(), filled](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            vh::rng g{s};
            plan_builder pb{env};
            auto pool = data_.pool;
            sg::plan_gen gen{g, pb, data_.tables, pool};
            gen.allow_errors = errs;
            gen.query(steps);
            std::lock_guard lk{m_};
            if (! *filled) { t->want = std::move(gen.out); *filled = true; }
            return std::move(pb.stmt);
        });
        api::statement_handle h{};
        VH_CHECK(e_.db->prepare(t->text, h) == status::ok, "service.setup", "a query is not prepared");
        (void) e_.db->destroy_statement(h);
        queries_.push_back(t);
    }
    std::vector<std::unique_ptr<session>> ss;
    for (std::size_t i = 0; i < sessions; ++i) ss.push_back(std::make_unique<session>(*this, r_.next(), i));
    auto drive = [&](session& x) { vh::guarded("service", [&] { for (std::size_t i = 0; i < requests; ++i) x.step(); }); };
    if (sequential_) {
        std::vector<bool> dead(ss.size());
        for (std::size_t i = 0; i < requests * ss.size(); ++i) {
            auto k = r_.below(ss.size());
            if (dead[k]) continue;
            dead[k] = true;
            vh::guarded("service", [&] { ss[k]->step(); dead[k] = false; });
        }
    } else {
        std::vector<std::thread> th;
        for (auto& x : ss) th.emplace_back([&] { drive(*x); });
        for (auto& t : th) t.join();
    }
    vh::guarded("service", [&] { for (auto& x : ss) x->end(); });
    // what was answered is given back
    auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    for (;;) {
        std::size_t n = 0;
        std::string first;
        for (auto& x : sent) if (auto p = x.lock()) { ++n; if (first.empty()) first = p->body_.ShortDebugString(); }
        if (n == 0) break;
        if (std::chrono::steady_clock::now() > limit) { vh::record_fail("service.kept", "world " + std::to_string(seed_) + ": " + std::to_string(n) + " answered requests are still held, the first by " + first); break; }
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    vh::nontrivial(vh::mix(seed_));
}
static void one(std::uint64_t seed, bool threads) {
    vh::rng r{seed};
    vh::phase("world " + std::to_string(seed) + (threads ? " threads" : ""));
    auto e = std::make_unique<engine>(threads ? 1 + r.below(5) : 1 + r.below(2));
    auto& c = *e->cfg;
    c.enable_session_store(r.coin(85));
    c.skip_smv_check(r.coin(10));
    static const std::vector<int> zones{0, 0, 540, -300, 840};
    c.zone_offset(r.pick(zones));
    c.use_sorted_vector(r.coin());
    c.support_boolean(true);
    c.inplace_dag_schedule(r.coin());
    c.inplace_teardown(r.coin());
    if (r.coin(30)) c.enable_hybrid_scheduler(r.coin());
    if (r.coin(20)) c.max_result_set_writers(1 + r.below(3));
    if (r.coin(30)) c.scan_default_parallel(1 + r.below(4));
    if (r.coin(25)) c.key_distribution(jogasaki::key_distribution_kind::simple);
    e->start();
    jogasaki::global::database_impl(e->db);
    {
        world w{r, *e, seed, ! threads};
        w.run(threads ? 2 + r.below(3) : 1 + r.below(3), vh::scale(threads && tsan ? 50 : 60, 150));
    }
    // the tasks that answered last may still be ending
    auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while ((memkvs::ctl().open_iters != 0 || memkvs::ctl().open_txs != 0) && std::chrono::steady_clock::now() < limit) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    VH_EXPECT(memkvs::ctl().open_iters == 0, "service.iterators", "world " << seed << ": " << memkvs::ctl().open_iters << " iterators are left open");
    VH_EXPECT(memkvs::ctl().open_txs == 0, "service.transactions", "world " << seed << ": " << memkvs::ctl().open_txs << " transactions are left open after all were disposed");
    e.reset();
}
static void body() {
    vh::rng r{vh::seed() * 52711 + (tsan ? 7 : 0)};
    if (auto* p = getenv("W")) { one(std::strtoull(p, nullptr, 10), getenv("THREADS") != nullptr); return; }
    auto n = tsan ? vh::scale(150, 1500) : vh::scale(320, 4000);
    for (std::size_t i = 0; i < n; ++i) vh::guarded("world", [&] { one(r.next(), tsan || i % 3 == 0); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    if (! getenv("GLOG_v")) FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c38_service", "a world of sessions, or a query that yields rows through its channel", body);
}
