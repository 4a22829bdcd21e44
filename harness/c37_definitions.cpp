// C37/C38: histories of definitions, privileges, rows and restarts against a model of the catalogue:
// what is defined is what the statements said, also after a restart; only those allowed do it; storages go away once nobody uses them.
#include "sqlgen.h"
#include <filesystem>
#include <glog/logging.h>
#include <jogasaki/api/impl/result_store_channel.h>
#include <jogasaki/api/transaction_option.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/request_info.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <jogasaki/storage/storage_manager.h>
#include <set>
using namespace sg;
using SC = sharksfin::StatusCode;
namespace td = takatori::statement::details;
using act = td::table_privilege_action::action_kind_type;
namespace {
bool same_value(takatori::value::data const& a, takatori::value::data const& b) {
    namespace v = takatori::value;
    if (a.kind() != b.kind()) return false;
    auto eq = [&](auto* x) { using T = std::decay_t<decltype(*x)>; return static_cast<T const&>(a).get() == static_cast<T const&>(b).get(); };
    switch (a.kind()) {
        case v::value_kind::boolean: return eq(static_cast<v::boolean*>(nullptr));
        case v::value_kind::int4: return eq(static_cast<v::int4*>(nullptr));
        case v::value_kind::int8: return eq(static_cast<v::int8*>(nullptr));
        case v::value_kind::float4: return eq(static_cast<v::float4*>(nullptr));
        case v::value_kind::float8: return eq(static_cast<v::float8*>(nullptr));
        case v::value_kind::decimal: return eq(static_cast<v::decimal*>(nullptr));
        case v::value_kind::character: return eq(static_cast<v::character*>(nullptr));
        case v::value_kind::octet: return eq(static_cast<v::octet*>(nullptr));
        case v::value_kind::date: return eq(static_cast<v::date*>(nullptr));
        case v::value_kind::time_of_day: return eq(static_cast<v::time_of_day*>(nullptr));
        case v::value_kind::time_point: return eq(static_cast<v::time_point*>(nullptr));
        default: return false;
    }
}
char const* name_of(act a) { static char const* n[]{"ALL", "SELECT", "INSERT", "UPDATE", "DELETE"}; return n[static_cast<int>(a)]; }
// who asks
struct user { bool source{}, admin{}; std::string name{}; std::string text() const { return ! source ? "engine" : admin ? "administrator " + name : name.empty() ? "nobody" : name; } };
struct asked : tateyama::api::server::request {
    tateyama::api::server::session_info i{};
    std::size_t session_id() const override { return 1; }
    std::size_t service_id() const override { return 1; }
    std::size_t local_id() const override { return 1; }
    std::string_view payload() const override { return {}; }
    class tateyama::api::server::session_info const& session_info() const noexcept override { return i; }
};
using actions = std::set<act>;
void add(actions& s, actions const& o) {
    for (auto a : o) { if (a == act::control) s = {act::control}; else if (s.count(act::control) == 0) s.insert(a); }
}
void take(actions& s, actions const& o) { for (auto a : o) { if (a == act::control) s.clear(); else s.erase(a); } }
std::string show(actions const& s) { std::string t; for (auto a : s) t += std::string{t.empty() ? "" : ","} + name_of(a); return "{" + t + "}"; }
struct identity { std::int64_t init{1}, inc{1}; std::size_t given{}, kept{}; std::int64_t next() const { return init + static_cast<std::int64_t>(given) * inc; } };
struct definition {
    std::size_t uid{};
    std::string name{};
    std::vector<column> cols{};
    std::vector<std::optional<val>> defaults{};
    std::map<std::size_t, identity> ids{};              // by column
    std::vector<std::pair<std::size_t, bool>> keys{};   // none when the engine makes one
    struct index { std::vector<std::pair<std::size_t, bool>> keys{}; };
    std::map<std::string, index> idxs{};
    std::vector<row> rows{};
    actions pub{};
    std::map<std::string, actions> users{};
    std::string text() const {
        std::string s = name + "(";
        for (std::size_t i = 0; i < cols.size(); ++i) {
            s += (i ? ", " : "") + cols[i].name + " " + cols[i].f.str();
            if (ids.count(i)) s += " identity(" + std::to_string(ids.at(i).init) + "," + std::to_string(ids.at(i).inc) + ")";
            if (defaults[i]) s += " default " + defaults[i]->str(cols[i].f);
        }
        s += keys.empty() ? ") no key" : ") key";
        for (auto& [c, asc] : keys) s += " " + std::to_string(c) + (asc ? "" : " desc");
        return s;
    }
};
using defp = std::shared_ptr<definition>;
struct transaction {
    std::size_t no{};
    api::transaction_handle h{};
    std::vector<std::pair<defp, row>> pending{};
    std::map<definition*, std::vector<std::size_t>> removed{};
    std::set<std::string> changed{};        // tables it defined anew, dropped, ...
    std::set<std::string> locked{};         // names it excludes others from
    std::set<std::string> used{};           // storage keys it may still read
    std::map<std::pair<definition*, std::size_t>, std::size_t> ids{};
    bool defined() const { return ! changed.empty(); }
};

class world {
public:
    world(vh::rng& r, std::uint64_t seed) : r_(r), seed_(seed) {
        sharksfin::DatabaseHandle h{};
        (void) sharksfin::database_open_impl(&h);
        handle_.reset(h);
        users_ = {{false, false, ""}, {true, true, "root"}, {true, false, "alice"}, {true, false, "bob"}, {true, false, "carol"}, {true, false, ""}};
    }
    ~world() { memkvs::ctl().fault = {}; memkvs::ctl().hold = {}; close(); }
    void run(std::size_t steps) {
        open();
        for (std::size_t i = 0; i < steps; ++i) {
            step();
            vh::event("steps");
        }
        finish_all();
        restart();
        sweep();
    }
private:
    vh::rng& r_;
    std::uint64_t seed_;
    std::unique_ptr<sharksfin::DatabaseStub> handle_{};
    std::unique_ptr<engine> e_{};
    std::vector<user> users_{};
    pools pool_{};
    std::map<std::string, defp> tables_{};
    std::set<std::string> unsettled_{};     // names whose definition was rolled back: only DROP TABLE is of use
    bool garbage_{};                        // storages and sequences may be left by what was rolled back
    std::vector<std::unique_ptr<transaction>> txs_{};
    std::map<std::string, std::set<transaction*>> in_use_{};   // storage key -> transactions which used it
    std::size_t next_uid_{1}, next_tx_{1}, next_key_{1};
    std::string log_{};
    std::vector<std::pair<api::statement_handle, defp>> late_creates_{};
    std::vector<std::pair<api::statement_handle, std::string>> late_drops_{};
    bool keyed_{true};

    void note(std::string const& s) { if (std::getenv("TRACE")) std::fprintf(stderr, "NOTE %s\n", s.c_str()); log_ += s + "; "; if (log_.size() > 20000) log_.erase(0, log_.size() - 20000); vh::phase("world " + std::to_string(seed_) + " " + s); }
    std::string tail() const { return " [world " + std::to_string(seed_) + ": " + (log_.size() > 1500 && ! std::getenv("DB") ? log_.substr(log_.size() - 1500) : log_) + "]"; }
    void open() {
        e_ = std::make_unique<engine>(r_.coin(60) ? 0 : 1 + r_.below(3));
        e_->cfg->enable_storage_key(keyed_);
        e_->cfg->enable_maintenance_thread(false);
        handle_->durability.clear();
        e_->db = std::make_shared<api::impl::database>(e_->cfg, handle_.get());
        (void) jogasaki::global::database_impl(e_->db);
        auto rc = e_->db->start();
        VH_CHECK(rc == status::ok, "definition.start", "the engine does not start: " << static_cast<int>(rc) << tail());
        vh::event("starts");
    }
    void close() {
        if (! e_) return;
        for (auto& [h, d] : late_creates_) (void) e_->db->destroy_statement(h);
        for (auto& [h, d] : late_drops_) (void) e_->db->destroy_statement(h);
        late_creates_.clear();
        late_drops_.clear();
        txs_.clear();
        e_.reset();
        in_use_.clear();
    }
    void restart() {
        note("restart");
        finish_all();
        for (auto& [n, d] : tables_) for (auto& [c, i] : d->ids) i.given = i.kept;
        close();
        open();
        check_catalogue("after a restart");
    }
    jogasaki::request_info info_of(user const& u) {
        if (! u.source) return {};
        auto s = std::make_shared<asked>();
        s->i.id_ = 1;
        if (! u.name.empty()) s->i.name_ = u.name;
        s->i.type_ = u.admin ? tateyama::api::server::user_type::administrator : tateyama::api::server::user_type::standard;
        return jogasaki::request_info{1, s, nullptr};
    }
    outcome exec(transaction& t, api::statement_handle h, user const& u) {
        outcome o;
        auto c = e_->db->find_transaction(t.h);
        VH_CHECK(c, "definition.tx", "transaction not found" << tail());
        std::unique_ptr<api::result_set> rs{};
        auto store = std::make_unique<jogasaki::data::result_store>();
        auto ch = std::make_shared<api::impl::result_store_channel>(jogasaki::maybe_shared_ptr{store.get()});
        std::mutex m;
        std::condition_variable cv;
        int done = 0;
        auto info = info_of(u);
        (void) jogasaki::executor::execute_async(*e_->db, c, h, api::create_parameter_set(), ch, [&](status st, std::shared_ptr<jogasaki::error::error_info> e, std::shared_ptr<jogasaki::request_statistics> s) {
            std::unique_lock lk{m};
            o.st = st;
            o.stats = std::move(s);
            if (e) { o.code = e->code(); o.message = std::string{e->message()}; }
            ++done;
            cv.notify_all();
        }, true, info);
        std::unique_lock lk{m};
        bool told = cv.wait_for(lk, std::chrono::seconds(60), [&] { return done != 0; });
        VH_CHECK(told, "definition.lost", "a statement is not answered" << tail());
        lk.unlock();
        if (o.ok()) {
            rs = std::make_unique<api::impl::result_set>(std::move(store));
            engine::read(rs, o);
        } else rs = std::make_unique<api::impl::result_set>(std::move(store));
        return o;
    }
    std::optional<api::statement_handle> prepare(std::string const& text, outcome& o) {
        api::statement_handle h{};
        std::shared_ptr<jogasaki::error::error_info> err{};
        o.st = e_->db->prepare(text, {}, h, err);
        if (err) { o.code = err->code(); o.message = std::string{err->message()}; }
        if (! o.ok()) return {};
        return h;
    }
    outcome exec(transaction& t, std::string const& text, user const& u) {
        outcome o;
        auto h = prepare(text, o);
        if (! h) { o.message = "prepare: " + o.message; return o; }
        o = exec(t, *h, u);
        (void) e_->db->destroy_statement(*h);
        return o;
    }
    transaction& begin() {
        auto t = std::make_unique<transaction>();
        t->no = next_tx_++;
        t->h = e_->begin();
        txs_.push_back(std::move(t));
        return *txs_.back();
    }
    // the transaction is over
    void gone(transaction& t) {
        for (auto& [k, s] : in_use_) s.erase(&t);
        (void) e_->db->destroy_transaction(t.h);
        txs_.erase(std::find_if(txs_.begin(), txs_.end(), [&](auto& p) { return p.get() == &t; }));
    }
    void rolled_back(transaction& t) {
        for (auto& n : t.changed) {
            unsettled_.insert(n);
            garbage_ = true;
            if (auto it = tables_.find(n); it != tables_.end()) tables_.erase(it);
        }
        gone(t);
    }
    void failed(transaction& t) { note("tx" + std::to_string(t.no) + " failed"); rolled_back(t); }
    void abort(transaction& t) {
        note("tx" + std::to_string(t.no) + " ROLLBACK");
        auto rc = t.h.abort_transaction();
        VH_CHECK(rc == status::ok, "definition.abort", "ROLLBACK: " << static_cast<int>(rc) << tail());
        rolled_back(t);
    }
    void commit(transaction& t) {
        note("tx" + std::to_string(t.no) + " COMMIT");
        auto rc = t.h.commit();
        VH_CHECK(rc == status::ok, "definition.commit", "COMMIT: " << static_cast<int>(rc) << tail());
        for (auto& [d, is] : t.removed) if (alive(*d)) {
            std::set<std::size_t> gone(is.begin(), is.end());
            std::vector<row> left;
            for (std::size_t i = 0; i < d->rows.size(); ++i) if (gone.count(i) == 0) left.push_back(d->rows[i]);
            d->rows = std::move(left);
        }
        for (auto& [d, w] : t.pending) if (alive(*d)) d->rows.push_back(w);
        for (auto& [k, n] : t.ids) if (alive(*k.first)) { auto& i = k.first->ids[k.second]; i.kept = std::max(i.kept, n); }
        gone(t);
        vh::event("commits");
    }
    bool alive(definition const& d) const { auto it = tables_.find(d.name); return it != tables_.end() && it->second.get() == &d; }
    void finish_all() { while (! txs_.empty()) { auto& t = *txs_.back(); if (r_.coin(70)) commit(t); else abort(t); } }
    bool locked_by_other(std::string const& n, transaction const& t) const {
        for (auto& p : txs_) if (p.get() != &t && p->locked.count(n)) return true;
        return false;
    }
    bool changed_by_open(std::string const& n) const { for (auto& p : txs_) if (p->changed.count(n) || p->locked.count(n)) return true; return false; }
    // rows not yet committed: the storage engine here lets the last one win, so leave these to one transaction
    bool dirty(definition const& d, transaction const* but = nullptr) const {
        for (auto& p : txs_) if (p.get() != but) {
            for (auto& [x, w] : p->pending) if (x.get() == &d) return true;
            for (auto& [x, w] : p->removed) if (x == &d && ! w.empty()) return true;
        }
        return false;
    }
    std::string name() { static std::vector<std::string> const ns{"A", "B", "C", "t", "Table With Space", "\xe8\xa1\xa8"}; return r_.pick(ns); }
    user const& somebody() { return r_.coin(55) ? users_[0] : r_.pick(users_); }
    bool allowed(definition const& d, user const& u, actions const& need) const {
        if (! u.source || u.admin || u.name.empty()) return true;
        auto it = d.users.find(u.name);
        for (auto a : need) {
            bool ok = d.pub.count(a) || d.pub.count(act::control) || (it != d.users.end() && (it->second.count(a) || it->second.count(act::control)));
            if (! ok) return false;
        }
        return true;
    }
    bool owns(definition const& d, user const& u) const {
        if (! u.source || u.admin) return true;
        if (u.name.empty()) return false;
        auto it = d.users.find(u.name);
        return d.pub.count(act::control) || (it != d.users.end() && it->second.count(act::control));
    }
    defp pick_table() {
        if (tables_.empty()) return {};
        auto it = tables_.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(r_.below(tables_.size())));
        return it->second;
    }
    static ys::configurable_provider& provider(engine& e) { return *e.db->tables(); }
    void uses(transaction& t, std::string const& table) {
        // the base table and its indices stay while the transaction is under way
        if (auto k = jogasaki::global::storage_manager()->get_storage_key(table)) in_use_[*k].insert(&t);
        if (auto it = tables_.find(table); it != tables_.end()) for (auto& [x, i] : it->second->idxs)
            if (auto k = jogasaki::global::storage_manager()->get_storage_key(x)) in_use_[*k].insert(&t);
    }

    // ---- statements
    defp random_table(std::string const& n) {
        auto d = std::make_shared<definition>();
        d->uid = next_uid_++;
        d->name = n;
        std::size_t c = 1 + r_.below(5);
        bool keyed = r_.coin(75);
        bool ints = r_.coin(6);   // records whose size is a power of two
        if (ints) { c = r_.coin() ? 16 : 17; keyed = c == 17; }
        for (std::size_t i = 0; i < c; ++i) {
            column k{"C" + std::to_string(i), rand_column_type(r_, false)};
            d->defaults.emplace_back();
            if (i == 0 && keyed) { k.f = fdesc{}; k.f.k = kind::int8; k.f.nullable = false; }
            else if (ints) { k.f = fdesc{}; k.f.k = kind::int4; k.f.nullable = false; }
            else k.f.nullable = r_.coin(70);
            if (ints ? i + 1 == c : r_.coin(keyed && i == 0 ? 25 : 15) && (i == 0 || r_.coin())) {
                k.f = fdesc{};
                k.f.k = ! ints && r_.coin(70) ? kind::int8 : kind::int4;
                k.f.nullable = false;
                identity id;
                id.init = r_.range(-50, 50);
                id.inc = r_.coin() ? r_.range(1, 5) : -r_.range(1, 5);
                d->ids[i] = id;
                k.def = {std::make_shared<ys::sequence>("", id.init, id.inc, id.inc > 0 ? -50 : -2000000000LL, id.inc > 0 ? 2000000000LL : 50, false)};
            } else if (! (i == 0 && keyed) && r_.coin(25)) {
                auto f = k.f;
                f.nullable = false;
                auto v = pool_.get(r_, f);
                d->defaults[i] = v;
                auto w = v;
                if (f.k == kind::character && ! f.varying) while (w.s.size() > 1 && w.s.back() == ' ') w.s.pop_back();
                k.def = {xt::value_of(f.k, w)};
            }
            d->cols.push_back(k);
        }
        if (keyed) {
            d->keys.emplace_back(0, d->ids.count(0) || r_.coin(70));   // the stand-in takes a descending key for another column
            if (c > 1 && r_.coin(30)) { auto& f = d->cols[1].f; if (! (f.k == kind::octet && f.varying)) { f.nullable = false; d->keys.emplace_back(1, d->ids.count(1) || r_.coin()); } }
        }
        return d;
    }
    std::string target(char const* what, std::string const& table, std::function<std::unique_ptr<tst::statement>(std::shared_ptr<ys::table const>, yugawara::binding::factory&)> f) {
        return e_->put(std::string{what} + " " + table, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto t = env.schema.shared_storage_provider()->find_table(table);
            if (! t) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + table};
            yugawara::binding::factory b{};
            return f(t, b);
        });
    }
    void judge(outcome const& o, bool want, error_code code, std::string const& what) {
        if (want) VH_CHECK(o.ok(), "definition.refused", what << " failed: " << static_cast<int>(o.st) << " " << static_cast<int>(o.code) << " " << o.message << tail());
        else {
            VH_CHECK(! o.ok(), "definition.accepted", what << " is expected to fail with " << code << tail());
            if (code != error_code{}) VH_CHECK(o.code == code, "definition.code", what << " fails with " << o.code << " (" << o.message << ") where " << code << " is expected" << tail());
        }
    }
    // why a definition statement on a table fails; nothing when it does not
    std::optional<error_code> obstacle(transaction& t, definition const& d, user const& u) {
        bool l = locked_by_other(d.name, t), p = ! owns(d, u);
        if (l && p) return error_code{};
        if (l) return error_code::sql_execution_exception;
        if (p) return error_code::permission_error;
        return {};
    }
    bool create_table(transaction& t) {
        auto n = r_.coin(90) || tables_.empty() ? name() : pick_table()->name;
        auto& u = somebody();
        std::string other;
        for (auto& [m, d] : tables_) if (! d->idxs.empty() && r_.coin(8)) other = d->idxs.begin()->first;
        if (! other.empty()) n = other;
        if (unsettled_.count(n) || leftover(n) || changed_by_name(n, t)) return true;
        bool exists = tables_.count(n) != 0 || ! other.empty();
        auto d = random_table(n);
        auto text = e_->create_table(n, d->cols, d->keys);
        bool admin = ! u.source || u.admin;
        std::optional<error_code> why;
        if (exists) why = error_code::target_already_exists_exception;
        if (! admin) why = exists ? error_code{} : error_code::permission_error;
        // the engine may be unable to create the storage, or the sequence
        bool hit = false;
        bool fault = ! why && r_.coin(8);
        if (fault) {
            std::string what = r_.coin() ? "storage_create" : "sequence_create";
            auto code = what == "storage_create" ? SC::ALREADY_EXISTS : SC::ERR_IO_ERROR;
            memkvs::ctl().fault = [&hit, what, code](char const* w) { if (what == w && ! hit) { hit = true; return code; } return SC::OK; };
        }
        note("tx" + std::to_string(t.no) + " CREATE TABLE " + d->text() + " by " + u.text() + (why ? " X" : "") + (fault ? " fault" : ""));
        auto o = exec(t, text, u);
        memkvs::ctl().fault = {};
        if (hit) {
            VH_CHECK(! o.ok(), "definition.fault", "CREATE TABLE succeeds though the engine fails" << tail());
            vh::event("faults");
            failed(t);
            garbage_ = true;
            return false;
        }
        judge(o, ! why, why.value_or(error_code{}), "CREATE TABLE " + d->text() + " by " + u.text());
        if (why) { failed(t); vh::event("refused"); return false; }
        if (u.source && ! u.name.empty()) d->users[u.name] = {act::control};
        tables_[n] = d;
        t.changed.insert(n);
        t.locked.insert(n);
        uses(t, n);
        vh::event("create_table");
        vh::nontrivial(vh::hash(d->text()));
        if (r_.coin(5)) { outcome p; if (auto h = prepare(text, p)) late_creates_.emplace_back(*h, d); }
        return true;
    }
    bool changed_by_name(std::string const& n, transaction const& t) const {
        // a name under definition in another transaction: whether it exists is not settled
        for (auto& p : txs_) if (p.get() != &t && p->changed.count(n)) return true;
        return false;
    }
    // left by what was rolled back
    bool leftover(std::string const& n) const {
        if (! garbage_ || ! provider(*e_).find_index(n)) return false;
        for (auto& [m, d] : tables_) if (m == n || d->idxs.count(n)) return false;
        return true;
    }
    bool drop_table(transaction& t) {
        auto& u = somebody();
        std::string n;
        defp d;
        if (! unsettled_.empty() && r_.coin(50)) {
            n = *unsettled_.begin();
            if (changed_by_name(n, t)) return true;
            note("tx" + std::to_string(t.no) + " DROP TABLE " + n + " (rolled back)");
            auto o = exec(t, target("DROP TABLE", n, [](auto tb, auto& b) { return std::make_unique<tst::drop_table>(b(tb)); }), users_[0]);
            t.changed.insert(n);
            if (! o.ok()) {
                // it may have been gone already
                VH_CHECK(! provider(*e_).find_table(n), "definition.garbage", "a table whose definition was rolled back cannot be dropped: " << o.message << tail());
                t.changed.erase(n);
                unsettled_.erase(n);
                failed(t);
                return false;
            }
            t.locked.insert(n);
            unsettled_.erase(n);
            vh::event("drop_garbage");
            return true;
        }
        d = pick_table();
        if (! d) return true;
        if (dirty(*d, &t) && r_.coin(70)) return true;
        n = d->name;
        auto why = obstacle(t, *d, u);
        note("tx" + std::to_string(t.no) + " DROP TABLE " + n + " by " + u.text() + (why ? " X" : ""));
        auto o = exec(t, target("DROP TABLE", n, [](auto tb, auto& b) { return std::make_unique<tst::drop_table>(b(tb)); }), u);
        judge(o, ! why, why.value_or(error_code{}), "DROP TABLE " + n + " by " + u.text());
        if (why) { failed(t); vh::event("refused"); return false; }
        tables_.erase(n);
        t.changed.insert(n);
        vh::event("drop_table");
        return true;
    }
    bool create_index(transaction& t) {
        auto d = pick_table();
        if (! d || dirty(*d)) return true;
        auto& u = somebody();
        bool dup = r_.coin(8);
        std::string x = "X" + std::to_string(r_.below(8));
        for (auto& [n, q] : tables_) for (auto& [y, z] : q->idxs) { if (x == y) dup = true; else if (dup && x != y && r_.coin()) x = y; }
        if (dup) { dup = false; for (auto& [n, q] : tables_) if (q->idxs.count(x)) dup = true; }
        for (auto& p : txs_) if (p.get() != &t && p->changed.count(x)) return true;
        if (unsettled_.count(x) || leftover(x)) return true;
        definition::index k;
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < d->cols.size(); ++i) if (d->cols[i].f.k != kind::octet || ! d->cols[i].f.varying) cs.push_back(i);
        if (cs.empty()) return true;
        do { auto at = r_.below(cs.size()); k.keys.emplace_back(cs[at], r_.coin(70)); cs.erase(cs.begin() + static_cast<std::ptrdiff_t>(at)); } while (! cs.empty() && r_.coin(40));
        auto own = 0; for (auto& [a, b] : t.pending) own += a == d;
        bool full = ! d->rows.empty() || own != 0;
        for (auto& [a, b] : t.removed) if (a == d.get() && ! b.empty()) return true;
        auto why = obstacle(t, *d, u);
        int n = (why ? 1 : 0) + dup + full;
        error_code code{};
        if (n == 1) code = why ? *why : dup ? error_code::target_already_exists_exception : error_code::unsupported_runtime_feature_exception;
        note("tx" + std::to_string(t.no) + " CREATE INDEX " + x + " ON " + d->name + " by " + u.text() + (n ? " X" : ""));
        auto o = exec(t, e_->create_index(d->name, x, k.keys), u);
        judge(o, n == 0, code, "CREATE INDEX " + x + " ON " + d->name + " by " + u.text());
        if (n != 0) { failed(t); vh::event("refused"); return false; }
        d->idxs[x] = k;
        t.changed.insert(d->name);
        t.changed.insert(x);
        t.locked.insert(d->name);
        uses(t, d->name);
        vh::event("create_index");
        return true;
    }
    bool drop_index(transaction& t) {
        auto d = pick_table();
        if (! d || d->idxs.empty() || dirty(*d, &t)) return true;
        for (auto& [a, b] : t.pending) if (a == d) return true;
        for (auto& [a, b] : t.removed) if (a == d.get()) return true;
        auto& u = somebody();
        auto it = d->idxs.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(r_.below(d->idxs.size())));
        auto x = it->first;
        auto why = obstacle(t, *d, u);
        note("tx" + std::to_string(t.no) + " DROP INDEX " + x + " by " + u.text() + (why ? " X" : ""));
        auto o = exec(t, e_->put("DROP INDEX " + x, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto i = env.schema.shared_storage_provider()->find_index(x);
            if (! i) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no index " + x};
            yugawara::binding::factory b{};
            return std::make_unique<tst::drop_index>(b.storage(i));
        }), u);
        judge(o, ! why, why.value_or(error_code{}), "DROP INDEX " + x + " by " + u.text());
        if (why) { failed(t); vh::event("refused"); return false; }
        d->idxs.erase(x);
        t.changed.insert(d->name);
        t.changed.insert(x);
        t.locked.insert(d->name);
        vh::event("drop_index");
        return true;
    }
    bool truncate(transaction& t) {
        auto d = pick_table();
        if (! d || dirty(*d, &t)) return true;
        auto& u = somebody();
        tst::truncate_table_option_set opt{};
        bool restart = r_.coin(45);
        if (restart) opt.insert(tst::truncate_table_option_kind::restart_identity);
        else if (r_.coin()) opt.insert(tst::truncate_table_option_kind::continue_identity);
        auto why = obstacle(t, *d, u);
        note("tx" + std::to_string(t.no) + " TRUNCATE " + d->name + (restart ? " RESTART" : "") + " by " + u.text() + (why ? " X" : ""));
        auto o = exec(t, target("TRUNCATE", d->name, [opt](auto tb, auto& b) { return std::make_unique<tst::truncate_table>(b(tb), opt); }), u);
        judge(o, ! why, why.value_or(error_code{}), "TRUNCATE TABLE " + d->name + " by " + u.text());
        if (why) { failed(t); vh::event("refused"); return false; }
        auto n = std::make_shared<definition>(*d);
        n->uid = next_uid_++;
        n->rows.clear();
        if (restart) for (auto& [c, i] : n->ids) { i.given = i.kept = 0; }
        // values given in this transaction are stored when it commits
        for (auto& [k, v] : std::map<std::pair<definition*, std::size_t>, std::size_t>(t.ids)) if (k.first == d.get()) { t.ids.erase(k); if (! restart) t.ids[{n.get(), k.second}] = v; }
        keep_.push_back(d);
        tables_[d->name] = n;
        t.changed.insert(d->name);
        t.locked.insert(d->name);
        uses(t, d->name);
        vh::event("truncate");
        return true;
    }
    std::vector<defp> keep_{};
    actions some_actions() { actions a; static std::vector<act> const as{act::control, act::select, act::insert, act::update, act::delete_}; auto n = 1 + r_.below(3); for (std::size_t i = 0; i < n; ++i) a.insert(r_.pick(as)); return a; }
    static std::vector<td::table_privilege_action> actions_of(actions const& a) { std::vector<td::table_privilege_action> v; for (auto x : a) v.emplace_back(x); return v; }
    bool grant(transaction& t, bool give) {
        struct element { defp d; actions pub; std::vector<std::tuple<tst::authorization_user_kind, std::string, actions>> who; };
        std::vector<element> es;
        auto n = 1 + r_.below(2);
        for (std::size_t i = 0; i < n; ++i) {
            auto d = pick_table();
            if (! d) return true;
            for (auto& e : es) if (e.d == d) d = {};
            if (! d) continue;
            element e{d, {}, {}};
            if (r_.coin(40)) e.pub = some_actions();
            auto m = r_.below(3);
            for (std::size_t j = 0; j < m; ++j) {
                auto k = r_.coin(75) ? tst::authorization_user_kind::specified : give || r_.coin() ? tst::authorization_user_kind::current_user : tst::authorization_user_kind::all_users;
                auto a = k == tst::authorization_user_kind::all_users && r_.coin(80) ? actions{act::control} : some_actions();
                e.who.emplace_back(k, users_[2 + r_.below(3)].name, a);
            }
            es.push_back(std::move(e));
        }
        auto& u = somebody();
        bool named = u.source && ! u.name.empty();
        std::set<int> whys;
        auto because = [&](error_code c) { whys.insert(static_cast<int>(c)); };
        for (auto& e : es) {
            if (auto w = obstacle(t, *e.d, u)) because(*w);
            for (auto& [k, name, a] : e.who) {
                if (k == tst::authorization_user_kind::current_user && ! named) because(error_code::value_evaluation_exception);
                if (k == tst::authorization_user_kind::all_users) {
                    if (! named) because(error_code::value_evaluation_exception);
                    if (a != actions{act::control}) because(error_code::unsupported_runtime_feature_exception);
                }
            }
        }
        std::string what = give ? "GRANT" : "REVOKE";
        for (auto& e : es) {
            what += " " + e.d->name + " public" + show(e.pub);
            for (auto& [k, name, a] : e.who) what += " " + std::string{k == tst::authorization_user_kind::specified ? name : k == tst::authorization_user_kind::current_user ? "CURRENT_USER" : "*"} + show(a);
        }
        what += " by " + u.text();
        note("tx" + std::to_string(t.no) + " " + what + (whys.empty() ? "" : " X"));
        auto text = e_->put(give ? "GRANT" : "REVOKE", [es, give](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            std::vector<td::table_privilege_element> v;
            yugawara::binding::factory b{};
            for (auto& e : es) {
                auto tb = env.schema.shared_storage_provider()->find_table(e.d->name);
                if (! tb) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + e.d->name};
                std::vector<td::table_authorization_entry> w;
                for (auto& [k, name, a] : e.who) w.emplace_back(k, k == tst::authorization_user_kind::specified ? name : "", actions_of(a));
                v.emplace_back(b(tb), actions_of(e.pub), std::move(w));
            }
            if (give) return std::make_unique<tst::grant_table>(std::move(v));
            return std::make_unique<tst::revoke_table>(std::move(v));
        });
        auto o = exec(t, text, u);
        judge(o, whys.empty(), whys.size() == 1 ? static_cast<error_code>(*whys.begin()) : error_code{}, what);
        if (! whys.empty()) { failed(t); vh::event("refused"); return false; }
        for (auto& e : es) {
            auto& d = *e.d;
            if (give) add(d.pub, e.pub); else take(d.pub, e.pub);
            for (auto& [k, name, a] : e.who) {
                if (k == tst::authorization_user_kind::all_users) {
                    d.pub.clear();
                    for (auto it = d.users.begin(); it != d.users.end();) it = it->first != u.name ? d.users.erase(it) : std::next(it);
                    continue;
                }
                auto& g = d.users[k == tst::authorization_user_kind::specified ? name : u.name];
                if (give) add(g, a); else take(g, a);
            }
            for (auto it = d.users.begin(); it != d.users.end();) it = it->second.empty() ? d.users.erase(it) : std::next(it);
            t.changed.insert(d.name);
            t.locked.insert(d.name);
        }
        vh::event(give ? "grant" : "revoke");
        return true;
    }
    // ---- rows
    std::vector<row> rows_of(transaction const& t, definition const& d) const {
        std::vector<row> v;
        std::set<std::size_t> gone;
        for (auto& [x, is] : t.removed) if (x == &d) gone.insert(is.begin(), is.end());
        for (std::size_t i = 0; i < d.rows.size(); ++i) if (gone.count(i) == 0) v.push_back(d.rows[i]);
        for (auto& [x, w] : t.pending) if (x.get() == &d) v.push_back(w);
        return v;
    }
    bool dml_blocked(transaction& t, definition const& d, user const& u, actions const& need, error_code& code) {
        bool l = locked_by_other(d.name, t), p = ! allowed(d, u, need);
        code = l && p ? error_code{} : p ? error_code::permission_error : error_code::sql_execution_exception;
        return l || p;
    }
    bool insert(transaction& t) {
        auto d = pick_table();
        if (! d || dirty(*d, &t)) return true;
        auto& u = somebody();
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < d->cols.size(); ++i) {
            bool can_omit = d->ids.count(i) || d->defaults[i] || d->cols[i].f.nullable;
            if (d->ids.count(i) || (can_omit && r_.coin(40))) continue;
            cs.push_back(i);
        }
        if (cs.empty()) return true;
        std::vector<row> rows;
        auto n = 1 + r_.below(3);
        for (std::size_t i = 0; i < n; ++i) {
            row w(d->cols.size());
            for (std::size_t c = 0; c < w.size(); ++c) {
                if (std::find(cs.begin(), cs.end(), c) != cs.end()) {
                    if (c == 0 && ! d->keys.empty()) { w[c].null = false; w[c].i = static_cast<std::int64_t>(next_key_++); }
                    else w[c] = pool_.get(r_, d->cols[c].f);
                } else if (d->defaults[c]) w[c] = *d->defaults[c];
            }
            rows.push_back(std::move(w));
        }
        error_code code{};
        bool bad = dml_blocked(t, *d, u, {act::insert}, code);
        note("tx" + std::to_string(t.no) + " INSERT " + std::to_string(n) + " INTO " + d->name + " by " + u.text() + (bad ? " X" : ""));
        auto text = e_->put("INSERT", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto tb = env.schema.shared_storage_provider()->find_table(d->name);
            if (! tb) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + d->name};
            yugawara::binding::factory b{};
            std::vector<tr::details::values_row> vs;
            for (auto& w : rows) {
                std::vector<eptr> es;
                for (auto c : cs) es.push_back(literal(env, d->cols[c].f.k, w[c]));
                vs.emplace_back(std::move(es));
            }
            std::vector<var> vc;
            for (auto c : cs) vc.push_back(b(tb->columns()[c]));
            return std::make_unique<tst::write>(tr::write_kind::insert, b(*env.schema.shared_storage_provider()->find_primary_index(*tb)), std::move(vc), std::move(vs));
        });
        auto o = exec(t, text, u);
        judge(o, ! bad, code, "INSERT INTO " + d->name + " by " + u.text());
        if (bad) { failed(t); vh::event("refused"); return false; }
        for (auto& w : rows) {
            for (auto& [c, i] : d->ids) {
                w[c].null = false;
                w[c].i = i.next();
                ++i.given;
                auto& k = t.ids[{d.get(), c}];
                k = std::max(k, i.given);
            }
            t.pending.emplace_back(d, w);
        }
        uses(t, d->name);
        vh::event("inserted", n);
        return true;
    }
    std::string select_text(defp d, std::string const& by, bool remove) {
        return e_->put(remove ? "DELETE" : "SELECT", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto tb = env.schema.shared_storage_provider()->find_table(d->name);
            auto ix = env.schema.shared_storage_provider()->find_index(by.empty() ? d->name : by);
            if (! tb || ! ix) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table or index for " + d->name};
            plan_builder pb{env};
            auto& p = pb.process();
            std::vector<var> vs;
            std::vector<tr::scan::column> m;
            for (std::size_t i = 0; i < tb->columns().size(); ++i) {
                auto& c = tb->columns()[i];
                vs.push_back(pb.stream(typ{c.shared_type()}));
                m.emplace_back(pb.b(c), vs.back());
            }
            auto& s = p.operators().emplace<tr::scan>(pb.b(*ix), std::move(m));
            if (remove) {
                std::vector<tr::write::key> ks;
                auto pk = env.schema.shared_storage_provider()->find_primary_index(*tb);
                for (auto& k : pk->keys()) for (std::size_t i = 0; i < tb->columns().size(); ++i) if (tb->columns()[i] == k.column()) ks.emplace_back(vs[i], pb.b(tb->columns()[i]));
                auto& w = p.operators().emplace<tr::write>(tr::write_kind::delete_, pb.b(*pk), std::move(ks), std::vector<tr::write::column>{});
                s.output() >> w.input();
                return std::move(pb.stmt);
            }
            std::vector<tr::emit::column> ec;
            for (std::size_t i = 0; i < d->cols.size(); ++i) ec.emplace_back(vs[i], d->cols[i].name);
            auto& em = p.operators().emplace<tr::emit>(std::move(ec));
            s.output() >> em.input();
            return std::move(pb.stmt);
        });
    }
    std::string some_index(definition const& d) {
        if (d.idxs.empty() || r_.coin(40)) return {};
        auto it = d.idxs.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(r_.below(d.idxs.size())));
        return it->first;
    }
    bool select(transaction& t) {
        auto d = pick_table();
        if (! d) return true;
        auto& u = somebody();
        auto by = some_index(*d);
        error_code code{};
        bool bad = dml_blocked(t, *d, u, {act::select}, code);
        note("tx" + std::to_string(t.no) + " SELECT FROM " + d->name + (by.empty() ? "" : " by index " + by) + " by " + u.text() + (bad ? " X" : ""));
        auto o = exec(t, select_text(d, by, false), u);
        judge(o, ! bad, code, "SELECT FROM " + d->name + " by " + u.text());
        if (bad) { failed(t); vh::event("refused"); return false; }
        uses(t, d->name);
        auto diff = row_diff(o.kinds, rows_of(t, *d), o.rows);
        VH_CHECK(diff.empty(), "definition.rows", d->text() << (by.empty() ? "" : " by index " + by) << diff << tail());
        vh::event("selects");
        return true;
    }
    bool remove(transaction& t) {
        auto d = pick_table();
        if (! d || dirty(*d)) return true;
        auto& u = somebody();
        auto by = some_index(*d);
        error_code code{};
        bool bad = dml_blocked(t, *d, u, {act::select, act::delete_}, code);
        note("tx" + std::to_string(t.no) + " DELETE FROM " + d->name + " by " + u.text() + (bad ? " X" : ""));
        auto o = exec(t, select_text(d, by, true), u);
        judge(o, ! bad, code, "DELETE FROM " + d->name + " by " + u.text());
        if (bad) { failed(t); vh::event("refused"); return false; }
        uses(t, d->name);
        std::vector<std::size_t> all;
        for (std::size_t i = 0; i < d->rows.size(); ++i) all.push_back(i);
        keep_.push_back(d);
        t.removed[d.get()] = all;
        vh::event("deletes");
        return true;
    }
    // ---- the background work
    void maintain() {
        note("maintenance");
        (void) jogasaki::storage::maintenance_storage(nullptr);
        vh::event("maintenance");
        check_used();
    }
    void check_used() {
        std::unique_lock lk{handle_->m};
        for (auto& [k, s] : in_use_) if (! s.empty()) VH_CHECK(handle_->stores.count(k) != 0, "definition.storage_lost", "a storage used by tx" << (*s.begin())->no << " is deleted while it is under way" << tail());
    }
    // everything the catalogue, the storage entries and the engine have
    void check_catalogue(std::string const& when) {
        auto& p = provider(*e_);
        auto& sm = *jogasaki::global::storage_manager();
        for (auto& [n, d] : tables_) {
            auto tb = p.find_table(n);
            VH_CHECK(tb, "definition.table", "table " << n << " is not there " << when << tail());
            VH_CHECK(tb->columns().size() == d->cols.size() + (d->keys.empty() ? 1 : 0), "definition.columns", d->text() << " has " << tb->columns().size() << " columns " << when << tail());
            for (std::size_t i = 0; i < d->cols.size(); ++i) {
                auto& c = tb->columns()[i];
                auto& k = d->cols[i];
                bool same = c.simple_name() == k.name && c.type() == *sql_type(k.f) && c.criteria().nullity().nullable() == k.f.nullable;
                VH_CHECK(same, "definition.column", d->text() << " column " << i << " is " << c.simple_name() << " " << c.type() << (c.criteria().nullity().nullable() ? " nullable " : " not null ") << when << tail());
                auto& dv = c.default_value();
                if (d->ids.count(i)) {
                    VH_CHECK(dv.kind() == ys::column_value_kind::sequence, "definition.default", d->text() << " column " << i << " lost its sequence " << when << tail());
                    auto& s = *dv.element<ys::column_value_kind::sequence>();
                    VH_CHECK(s.initial_value() == d->ids[i].init && s.increment_value() == d->ids[i].inc && ! s.cycle() && s.definition_id(), "definition.sequence", d->text() << " column " << i << " has a sequence from " << s.initial_value() << " by " << s.increment_value() << " " << when << tail());
                } else if (d->defaults[i]) {
                    VH_CHECK(dv.kind() == ys::column_value_kind::immediate && same_value(*dv.element<ys::column_value_kind::immediate>(), *k.def.element<ys::column_value_kind::immediate>()), "definition.default", d->text() << " column " << i << " has another default " << when << tail());
                } else VH_CHECK(! dv, "definition.default", d->text() << " column " << i << " got a default " << when << tail());
            }
            auto pk = p.find_primary_index(*tb);
            VH_CHECK(pk && pk->simple_name() == n, "definition.primary", d->text() << " has no primary index " << when << tail());
            check_keys(*d, *tb, *pk, d->keys, when);
            std::set<std::string> got, want;
            for (auto& [x, k] : d->idxs) want.insert(x);
            p.each_table_index(*tb, [&](std::string_view id, std::shared_ptr<ys::index const> const& x) { (void) id; if (x->simple_name() != n) got.insert(x->simple_name()); });
            VH_CHECK(got == want, "definition.indices", d->text() << " has " << got.size() << " indices where " << want.size() << " are defined " << when << tail());
            for (auto& [x, k] : d->idxs) { auto ix = p.find_index(x); VH_CHECK(ix && ix->table().simple_name() == n, "definition.index", "index " << x << " of " << n << " is not found " << when << tail()); check_keys(*d, *tb, *ix, k.keys, when); }
            auto e = sm.find_by_name(n);
            VH_CHECK(e, "definition.entry", "no storage entry for " << n << " " << when << tail());
            auto s = sm.find_entry(*e);
            VH_CHECK(s && s->is_primary() && s->name() == n, "definition.entry", "the storage entry of " << n << " is of something else " << when << tail());
            auto conv = [](jogasaki::auth::action_set const& a) { actions r; using K = jogasaki::auth::action_kind; for (auto x : a) r.insert(x == K::control ? act::control : x == K::select ? act::select : x == K::insert ? act::insert : x == K::update ? act::update : act::delete_); return r; };
            VH_CHECK(conv(s->public_actions()) == d->pub, "definition.public", n << ": public privileges are " << show(conv(s->public_actions())) << ", given " << show(d->pub) << " " << when << tail());
            std::map<std::string, actions> us;
            for (auto& [w, a] : s->authorized_actions()) us[w] = conv(a);
            std::string a, b;
            for (auto& [w, x] : us) a += w + show(x) + " ";
            for (auto& [w, x] : d->users) b += w + show(x) + " ";
            VH_CHECK(a == b, "definition.users", n << ": privileges are " << a << ", given " << b << when << tail());
        }
        // nothing else
        std::size_t want = 0, got = 0;
        for (auto& [n, d] : tables_) want += 1 + d->idxs.size();
        p.each_index([&](std::string_view id, auto&) {
            if (std::string_view{id}.substr(0, 2) == "__") return;
            ++got;
        });
        if (unsettled_.empty() && ! garbage_) VH_CHECK(got == want, "definition.extra", got << " indices are defined, expected " << want << " " << when << tail());
        vh::event("catalogues");
    }
    void check_keys(definition const& d, ys::table const& tb, ys::index const& x, std::vector<std::pair<std::size_t, bool>> keys, std::string const& when) {
        if (keys.empty()) keys.emplace_back(d.cols.size(), true);
        bool same = x.keys().size() == keys.size();
        for (std::size_t i = 0; same && i < keys.size(); ++i)
            same = x.keys()[i].column().simple_name() == tb.columns()[keys[i].first].simple_name() && (x.keys()[i].direction() == tr::sort_direction::ascendant) == keys[i].second;
        VH_CHECK(same, "definition.keys", "the keys of index " << x.simple_name() << " are not those given " << when << tail());
    }
    // with no transaction left, only what is defined has storages
    void sweep() {
        finish_all();
        maintain();
        maintain();
        std::size_t want = 0;
        std::set<std::string> keys;
        auto& sm = *jogasaki::global::storage_manager();
        for (auto& [n, d] : tables_) {
            for (auto& x : d->idxs) keys.insert(sm.get_storage_key(x.first).value_or("?"));
            keys.insert(sm.get_storage_key(n).value_or("?"));
        }
        want = keys.size();
        std::unique_lock lk{handle_->m};
        std::size_t got = 0;
        for (auto& [k, s] : handle_->stores) if (k.substr(0, 2) != "__") ++got;
        for (auto& k : keys) VH_CHECK(handle_->stores.count(k), "definition.storage", "a defined table or index has no storage" << tail());
        if (! garbage_) VH_CHECK(got == want, "definition.storage_left", got << " storages are left for " << want << " tables and indices" << tail());
        vh::event("sweeps");
    }
    void late() {
        if (! late_creates_.empty() && r_.coin()) {
            auto [h, d] = late_creates_.back();
            if (unsettled_.count(d->name) || changed_by_open(d->name)) return;
            late_creates_.pop_back();
            bool exists = tables_.count(d->name) != 0;
            auto& t = begin();
            note("tx" + std::to_string(t.no) + " CREATE TABLE " + d->name + " prepared before" + (exists ? " X" : ""));
            auto o = exec(t, h, users_[0]);
            (void) e_->db->destroy_statement(h);
            judge(o, ! exists, error_code::target_already_exists_exception, "CREATE TABLE " + d->name + " prepared before");
            if (exists) { failed(t); return; }
            auto n = std::make_shared<definition>(*d);
            n->uid = next_uid_++;
            n->rows.clear();
            n->pub.clear();
            n->users.clear();
            n->idxs.clear();
            for (auto& [c, i] : n->ids) i.given = i.kept = 0;
            tables_[n->name] = n;
            t.changed.insert(n->name);
            commit(t);
            vh::event("late_create");
        }
    }
    bool statement(transaction& t, bool ddl) {
        if (ddl) switch (r_.below(16)) {
            case 0: case 1: case 2: case 3: return create_table(t);
            case 4: case 5: return drop_table(t);
            case 6: case 7: case 8: return create_index(t);
            case 9: return drop_index(t);
            case 10: case 11: return truncate(t);
            case 12: case 13: case 14: return grant(t, true);
            default: return grant(t, false);
        }
        switch (r_.below(12)) {
            case 0: case 1: case 2: case 3: case 4: return insert(t);
            case 5: return remove(t);
            default: return select(t);
        }
    }
    void step() {
        auto c = r_.below(100);
        if (c < 4) { restart(); return; }
        if (c < 12) { maintain(); return; }
        if (c < 15) { late(); return; }
        if (c < 18) { sweep(); return; }
        if (c < 24) { check_catalogue("now"); return; }
        if (txs_.size() > 3 || (! txs_.empty() && c < 40)) {
            auto& t = *txs_[r_.below(txs_.size())];
            if (r_.coin(t.defined() ? 85 : 70)) commit(t); else abort(t);
            return;
        }
        transaction* t{};
        if (! txs_.empty() && r_.coin(60)) t = txs_[r_.below(txs_.size())].get(); else t = &begin();
        if (! statement(*t, r_.coin(55))) return;
        if (r_.coin(60)) { auto again = r_.below(3); while (again-- > 0) if (! statement(*t, r_.coin(30))) return; if (r_.coin(80)) commit(*t); else abort(*t); }
    }
};
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c37_definitions", "distinct table definitions created in histories of definitions, privileges, rows and restarts", [] {
        if (auto* s = std::getenv("DB")) {
            auto seed = std::strtoull(s, nullptr, 10);
            vh::rng r{seed};
            world w{r, seed};
            w.run(80);
            return;
        }
        auto n = vh::scale(250, 4000);
        for (std::size_t i = 0; i < n; ++i) {
            auto seed = vh::seed() * 1000003 + i;
            vh::guarded("definition.exception", [&] { vh::rng r{seed}; world w{r, seed}; w.run(80); });
        }
    });
}
