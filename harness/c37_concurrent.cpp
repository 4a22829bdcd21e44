// C37: definitions, privileges and rows changed by clients at the same time. Decided from the recorded history:
// nobody uses a table while a transaction defines it anew, names have one meaning, privileges are those of the moment,
// storages stay while someone may use them, and what remains is what was defined - also after a restart.
#define VH_PERTURB_IMPL
#include "perturb.h"
#include "sqlgen.h"
#include <glog/logging.h>
#include <jogasaki/api/impl/result_store_channel.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/request_info.h>
#include <jogasaki/storage/maintenance_storage.h>
#include <jogasaki/storage/storage_manager.h>
#include <set>
#include <thread>
using namespace sg;
namespace td = takatori::statement::details;
using act = td::table_privilege_action::action_kind_type;
namespace {
// A statement prepared before a table or an index is dropped or created and executed afterwards is not supported (#702),
// so statements which use a table are not under way while one which defines it anew is. Among themselves they run freely,
// and so do GRANT and REVOKE; the transactions overlap in any case.
struct turns {
    std::mutex m; std::condition_variable cv; int users{}, definers{};
    void enter(int k) { if (k == 0) return; std::unique_lock lk{m}; cv.wait(lk, [&] { return (k == 1 ? definers : users) == 0; }); ++(k == 1 ? users : definers); }
    void leave(int k) { if (k == 0) return; std::unique_lock lk{m}; --(k == 1 ? users : definers); cv.notify_all(); }
};
// statements refer to definitions without owning them: definitions are kept here
struct graveyard {
    std::mutex m;
    std::vector<std::shared_ptr<void const>> v;
    template<class T> void keep(std::shared_ptr<T> p) { if (! p) return; std::unique_lock lk{m}; v.push_back(std::move(p)); }
    template<class T> std::shared_ptr<T> of(std::shared_ptr<T> p) { keep(p); return p; }
};
graveyard& kept() { static graveyard g; return g; }
struct asked : tateyama::api::server::request {
    tateyama::api::server::session_info i{};
    std::size_t session_id() const override { return 1; }
    std::size_t service_id() const override { return 1; }
    std::size_t local_id() const override { return 1; }
    std::string_view payload() const override { return {}; }
    class tateyama::api::server::session_info const& session_info() const noexcept override { return i; }
};
enum class what { create, drop, truncate, create_index, drop_index, grant, revoke, insert, select, select_index };
char const* text_of(what w) { static char const* n[]{"CREATE TABLE", "DROP TABLE", "TRUNCATE", "CREATE INDEX", "DROP INDEX", "GRANT", "REVOKE", "INSERT", "SELECT", "SELECT by index"}; return n[static_cast<int>(w)]; }
bool defines(what w) { return w < what::insert; }
struct record {
    what w{};
    std::size_t table{};
    bool alice{}, ok{}, prepared{};
    error_code code{};
    std::uint64_t s{}, e{};            // the statement
    std::uint64_t cb{}, ce{};          // the end of its transaction
    bool committed{};
    std::size_t tx{};
    std::int64_t key{};
    std::vector<row> rows{};
    std::string message{};
};
class world {
public:
    world(std::uint64_t seed, std::size_t threads, bool tsan) : seed_(seed), threads_(threads), tsan_(tsan) {
        sharksfin::DatabaseHandle h{};
        (void) sharksfin::database_open_impl(&h);
        handle_.reset(h);
        open();
    }
    ~world() { vh::perturb::level() = 0; memkvs::ctl().hold = {}; memkvs::ctl().observe = {}; close(); }
    void open() {
        e_ = std::make_unique<engine>(threads_);
        e_->cfg->enable_storage_key(true);
        e_->cfg->enable_maintenance_thread(false);
        handle_->durability.clear();
        e_->db = std::make_shared<api::impl::database>(e_->cfg, handle_.get());
        (void) jogasaki::global::database_impl(e_->db);
        auto rc = e_->db->start();
        VH_CHECK(rc == status::ok, "definition.start", "the engine does not start: " << static_cast<int>(rc) << " world " << seed_);
        texts_.clear();
        for (std::size_t t = 0; t < 3; ++t) {
            auto n = name(t);
            std::vector<std::string> v;
            std::vector<column> cs{{"K", {}}, {"V", {}}};
            cs[0].f.k = kind::int8; cs[0].f.nullable = false;
            cs[1].f.k = kind::int4; cs[1].f.nullable = true;
            v.push_back(e_->create_table(n, cs, {{0, true}}));
            v.push_back(on_table("DROP", n, [](auto tb, auto& b) -> std::unique_ptr<tst::statement> { return std::make_unique<tst::drop_table>(b(tb)); }));
            v.push_back(on_table("TRUNCATE", n, [](auto tb, auto& b) -> std::unique_ptr<tst::statement> { return std::make_unique<tst::truncate_table>(b(tb), tst::truncate_table_option_set{}); }));
            v.push_back(e_->create_index(n, index(t), {{1, true}}));
            v.push_back(e_->put("DROP INDEX", [x = index(t)](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                auto i = kept().of(env.schema.shared_storage_provider()->find_index(x));
                if (! i) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no index " + x};
                yugawara::binding::factory b{};
                return std::make_unique<tst::drop_index>(b.storage(i));
            }));
            for (bool give : {true, false}) v.push_back(on_table(give ? "GRANT" : "REVOKE", n, [give](auto tb, auto& b) -> std::unique_ptr<tst::statement> {
                std::vector<td::table_privilege_action> a;
                a.emplace_back(act::insert);
                a.emplace_back(act::select);
                std::vector<td::table_authorization_entry> w;
                w.emplace_back(tst::authorization_user_kind::specified, "alice", a);
                std::vector<td::table_privilege_element> es;
                es.emplace_back(b(tb), std::vector<td::table_privilege_action>{}, std::move(w));
                if (give) return std::make_unique<tst::grant_table>(std::move(es));
                return std::make_unique<tst::revoke_table>(std::move(es));
            }));
            v.emplace_back();   // INSERT has its own text each time
            v.push_back(select_text(n, n));
            v.push_back(select_text(n, index(t)));
            texts_.push_back(std::move(v));
        }
    }
    void close() { e_.reset(); std::unique_lock lk{kept().m}; kept().v.clear(); }
    static std::string name(std::size_t t) { return "T" + std::to_string(t); }
    static std::string index(std::size_t t) { return "X" + std::to_string(t); }
    std::string on_table(std::string const& w, std::string const& n, std::function<std::unique_ptr<tst::statement>(std::shared_ptr<ys::table const>, yugawara::binding::factory&)> f) {
        return e_->put(w, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto t = kept().of(env.schema.shared_storage_provider()->find_table(n));
            if (! t) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + n};
            yugawara::binding::factory b{};
            return f(t, b);
        });
    }
    std::string select_text(std::string const& n, std::string const& by) {
        return e_->put("SELECT", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto tb = kept().of(env.schema.shared_storage_provider()->find_table(n));
            auto ix = kept().of(env.schema.shared_storage_provider()->find_index(by));
            if (! tb || ! ix) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table or index for " + n};
            plan_builder pb{env};
            auto& p = pb.process();
            std::vector<tr::scan::column> m;
            std::vector<tr::emit::column> ec;
            // the columns are those of the table the index is of
            auto& at = ix->table();
            for (std::size_t i = 0; i < at.columns().size(); ++i) {
                auto v = pb.stream(typ{at.columns()[i].shared_type()});
                m.emplace_back(pb.b(at.columns()[i]), v);
                ec.emplace_back(v, std::string{at.columns()[i].simple_name()});
            }
            auto& s = p.operators().emplace<tr::scan>(pb.b(*ix), std::move(m));
            auto& em = p.operators().emplace<tr::emit>(std::move(ec));
            s.output() >> em.input();
            return std::move(pb.stmt);
        });
    }
    std::string insert_text(std::string const& n, std::int64_t key) {
            auto t = dbx::engine::fresh("INSERT");
            yugawara::statement_registry::instance().put(t, [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
                auto tb = kept().of(env.schema.shared_storage_provider()->find_table(n));
                if (! tb) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no table " + n};
                auto pk = kept().of(env.schema.shared_storage_provider()->find_primary_index(*tb));
                if (! pk) throw yugawara::compile_failure{yugawara::compiler_code::unknown, "no primary index of " + n};
                yugawara::binding::factory b{};
                std::vector<tr::details::values_row> vs;
                std::vector<eptr> es;
                val k{}, v{};
                k.null = v.null = false;
                k.i = key;
                v.i = key % 7;
                es.push_back(literal(env, kind::int8, k));
                es.push_back(literal(env, kind::int4, v));
                vs.emplace_back(std::move(es));
                std::vector<var> vc;
                vc.push_back(b(tb->columns()[0]));
                vc.push_back(b(tb->columns()[1]));
                return std::make_unique<tst::write>(tr::write_kind::insert, b(*pk), std::move(vc), std::move(vs));
            });
            return t;
    }
    static jogasaki::request_info info_of(bool alice) {
        if (! alice) return {};
        auto s = std::make_shared<asked>();
        s->i.id_ = 1;
        s->i.name_ = "alice";
        s->i.type_ = tateyama::api::server::user_type::standard;
        return jogasaki::request_info{1, s, nullptr};
    }
    std::uint64_t now() { return clock_.fetch_add(1) + 1; }
    // one statement
    record exec(api::transaction_handle tx, what w, std::size_t t, bool alice, std::int64_t key = 0) {
        record r;
        r.w = w; r.table = t; r.alice = alice; r.key = key;
        auto text = w == what::insert ? insert_text(name(t), key) : texts_[t][static_cast<std::size_t>(w)];
        api::statement_handle h{};
        std::shared_ptr<jogasaki::error::error_info> err{};
        auto kind_of_turn = ! taking_turns_ ? 0 : defines(w) ? (w == what::grant || w == what::revoke ? 0 : 2) : 1;
        turns_[t].enter(kind_of_turn);
        struct leave { turns& t; int k; ~leave() { t.leave(k); } } leave_{turns_[t], kind_of_turn};
        r.s = now();
        auto st = e_->db->prepare(text, {}, h, err);
        if (w == what::insert) yugawara::statement_registry::instance().erase(text);
        if (st != status::ok) {
            r.e = now();
            if (err) { r.code = err->code(); r.message = std::string{err->message()}; }
            if (std::getenv("TRACE")) std::fprintf(stderr, "NOTE %s\n", show(r).c_str());
            return r;
        }
        r.prepared = true;
        auto c = e_->db->find_transaction(tx);
        auto store = std::make_unique<jogasaki::data::result_store>();
        auto ch = std::make_shared<api::impl::result_store_channel>(jogasaki::maybe_shared_ptr{store.get()});
        std::mutex m;
        std::condition_variable cv;
        bool done = false;
        auto info = info_of(alice);
        (void) jogasaki::executor::execute_async(*e_->db, c, h, api::create_parameter_set(), ch, [&](status s, std::shared_ptr<jogasaki::error::error_info> e, std::shared_ptr<jogasaki::request_statistics> const&) {
            std::unique_lock lk{m};
            r.ok = s == status::ok;
            if (e) { r.code = e->code(); r.message = std::string{e->message()}; }
            done = true;
            cv.notify_all();
        }, false, info);
        {
            std::unique_lock lk{m};
            bool told = cv.wait_for(lk, std::chrono::seconds(120), [&] { return done; });
            VH_CHECK(told, "definition.lost", text_of(w) << " is not answered, world " << seed_);
        }
        r.e = now();
        outcome o;
        std::unique_ptr<api::result_set> rs = std::make_unique<api::impl::result_set>(std::move(store));
        if (r.ok) { dbx::engine::read(rs, o); r.rows = std::move(o.rows); }
        (void) e_->db->destroy_statement(h);
        if (std::getenv("TRACE")) std::fprintf(stderr, "NOTE %s\n", show(r).c_str());
        return r;
    }
    // it ran while another transaction was defining the table anew
    static std::string show(record const& r) {
        std::ostringstream s;
        s << "tx" << r.tx << " " << text_of(r.w) << " " << name(r.table) << (r.alice ? " by alice" : "") << " [" << r.s << "," << r.e << "] " << (r.ok ? "ok" : "failed: " + r.message) << " end [" << r.cb << "," << r.ce << "]" << (r.committed ? "" : " aborted");
        return s.str();
    }
    void client(std::size_t id, std::size_t txs, std::vector<record>& out) {
        vh::perturb::seed_thread(seed_ * 31 + id);
        vh::rng r{vh::mix(seed_ * 131 + id)};
        for (std::size_t i = 0; i < txs; ++i) {
            auto no = next_tx_.fetch_add(1) + 1;
            auto h = e_->begin();
            std::vector<record> mine;
            auto n = 1 + r.below(3);
            bool failed = false;
            auto t = r.below(3);
            for (std::size_t j = 0; j < n && ! failed; ++j) {
                if (r.coin(30)) t = r.below(3);
                what w{};
                auto c = r.below(100);
                if (c < 60) w = c < 35 ? what::insert : c < 52 ? what::select : what::select_index;
                else {
                    static std::vector<what> const ws{what::create, what::create, what::create, what::create, what::drop, what::drop, what::truncate, what::create_index, what::create_index, what::drop_index, what::grant, what::grant, what::revoke};
                    w = r.pick(ws);
                }
                bool alice = ! defines(w) && r.coin(40);
                auto x = exec(h, w, t, alice, w == what::insert ? next_key_.fetch_add(1) + 1 : 0);
                x.tx = no;
                if (! x.ok && x.prepared) failed = true;
                bool last = defines(w) && x.ok;
                mine.push_back(std::move(x));
                if (last) break;      // what a transaction defined is not rolled back: nothing may fail afterwards
                vh::perturb::point(20);
            }
            bool defined = ! mine.empty() && defines(mine.back().w) && mine.back().ok;
            if (r.coin(30)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
            auto cb = now();
            if (std::getenv("TRACE")) std::fprintf(stderr, "END %zu %zu\n", no, (std::size_t) cb);
            bool committed = false;
            if (! failed && (defined || r.coin(85))) {
                auto rc = h.commit();
                committed = rc == status::ok;
                VH_EXPECT(committed, "definition.commit", "COMMIT fails: " << static_cast<int>(rc) << " world " << seed_);
            } else if (! failed) (void) h.abort_transaction();
            auto ce = now();
            (void) e_->db->destroy_transaction(h);
            for (auto& x : mine) { x.cb = cb; x.ce = ce; x.committed = committed; out.push_back(std::move(x)); }
        }
    }
    void round(std::size_t clients, std::size_t txs) {
        std::vector<std::vector<record>> logs(clients);
        std::vector<std::thread> ts;
        std::atomic<bool> stop{false};
        std::thread keeper{[&] { vh::perturb::seed_thread(seed_ * 31 + 99); while (! stop.load()) { (void) jogasaki::storage::maintenance_storage(nullptr); std::this_thread::sleep_for(std::chrono::microseconds(200)); } }};
        for (std::size_t i = 0; i < clients; ++i) ts.emplace_back([&, i] { vh::guarded("definition.exception", [&] { client(i, txs, logs[i]); }); });
        for (auto& t : ts) t.join();
        stop = true;
        keeper.join();
        for (auto& l : logs) for (auto& x : l) all_.push_back(std::move(x));
    }
    void judge() {
        std::sort(all_.begin(), all_.end(), [](auto& a, auto& b) { return a.s < b.s; });
        std::vector<std::vector<record const*>> by(3), defs(3);
        for (auto& r : all_) {
            by[r.table].push_back(&r);
            if (defines(r.w) && r.ok) defs[r.table].push_back(&r);
            vh::event(std::string{text_of(r.w)} + (r.ok ? "" : r.prepared ? " refused" : " unknown"));
            if (! r.ok) {
                auto c = r.code;
                bool known = c == error_code::sql_execution_exception || c == error_code::permission_error || c == error_code::target_already_exists_exception || c == error_code::target_not_found_exception || c == error_code::unsupported_runtime_feature_exception;
                VH_EXPECT(known || ! r.prepared, "definition.code", show(r) << " code " << c << " world " << seed_);
            }
        }
        for (std::size_t t = 0; t < 3; ++t) {
            std::sort(defs[t].begin(), defs[t].end(), [](auto* a, auto* b) { return a->e < b->e; });
            // one definition at a time
            for (auto* d : defs[t]) for (auto* r : by[t]) {
                if (r->tx == d->tx || ! r->ok || r->s <= d->e || r->e >= d->cb) continue;
                if (d->w == what::drop && (r->w == what::create || again(defs[t], *d, *r))) continue;
                VH_EXPECT(false, "definition.exclusive", show(*r) << " ran within " << show(*d) << " world " << seed_);
            }
            // names have one meaning
            std::int64_t n = 0, x = 0;
            for (auto* d : defs[t]) n += d->w == what::create ? 1 : d->w == what::drop ? -1 : 0;
            (void) x;
            bool is = e_->db->tables()->find_table(name(t)) != nullptr;
            VH_EXPECT(n == (is ? 1 : 0), "definition.name", name(t) << (is ? " is" : " is not") << " defined after " << n << " more CREATE TABLE than DROP TABLE, world " << seed_);
            // privileges
            for (auto* r : by[t]) {
                if (! r->alice || ! r->prepared) continue;
                record const* last{};
                bool unsure = false;
                for (auto* d : defs[t]) if (d->w == what::grant || d->w == what::revoke || d->w == what::create || d->w == what::drop) {
                    if (d->s < r->e && d->e > r->s) unsure = true;
                    if (d->e < r->s) last = d;
                }
                // two definitions answered at almost the same time may be in either order, unless the lock tells
                if (last) for (auto* d : defs[t]) if (d != last && (d->w == what::grant || d->w == what::revoke || d->w == what::create || d->w == what::drop) && d->e > last->s && d->s < last->e) unsure = true;
                if (unsure || ! last) continue;
                bool may = last->w == what::grant;
                bool none = last->w == what::create;
                // REVOKE takes what GRANT gave
                if (last->w == what::revoke) none = true;
                if (last->w == what::drop) continue;
                if (r->ok) VH_EXPECT(! none, "definition.privilege", show(*r) << " though the last was " << show(*last) << " world " << seed_);
                else if (r->code == error_code::permission_error) VH_EXPECT(! may, "definition.privilege", show(*r) << " though the last was " << show(*last) << " world " << seed_);
                vh::event("privilege decisions");
            }
            if (! is) continue;
            // rows
            record const* last{};
            for (auto* d : defs[t]) if (d->w == what::create || d->w == what::truncate) last = d;
            bool mixed = false;
            for (auto* d : defs[t]) if (d != last && (d->w == what::create || d->w == what::truncate || d->w == what::drop) && d->e > last->s) mixed = true;
            std::set<std::int64_t> must, may;
            for (auto* r : by[t]) if (r->w == what::insert && r->ok && r->committed && ! mixed) {
                if (r->s > last->e) must.insert(r->key);
                else if (r->e > last->s) may.insert(r->key);
            }
            auto h = e_->begin();
            auto got = exec(h, what::select, t, false);
            VH_EXPECT(got.ok, "definition.select", "SELECT fails at the end: " << got.message << " world " << seed_);
            std::set<std::int64_t> have, second;
            for (auto& w : got.rows) have.insert(w[0].i);
            VH_EXPECT(have.size() == got.rows.size(), "definition.rows", name(t) << " has a row twice, world " << seed_);
            if (! mixed) {
                for (auto k : must) VH_EXPECT(have.count(k), "definition.rows", "row " << k << " of " << name(t) << " is lost, world " << seed_);
                for (auto k : have) VH_EXPECT(must.count(k) || may.count(k), "definition.rows", "row " << k << " of " << name(t) << " came back, world " << seed_);
                vh::event("rows judged", have.size());
            }
            // the index, unless rows not yet committed escaped its creation
            std::int64_t ic = 0;
            record const* made{};
            if (e_->db->tables()->find_index(index(t))) {
                for (auto* d : defs[t]) if (d->w == what::create_index) made = d;
                bool escaped = ! made;
                if (made) for (auto* r : by[t]) if (r->w == what::insert && r->ok && r->committed && r->s < made->e && r->ce > made->s) escaped = true;
                auto ix = exec(h, what::select_index, t, false);
                VH_EXPECT(ix.ok, "definition.select", "SELECT by index fails at the end: " << ix.message << " world " << seed_);
                for (auto& w : ix.rows) second.insert(w[0].i);
                if (! escaped) { VH_EXPECT(second == have, "definition.index_rows", index(t) << " has " << second.size() << " rows, " << name(t) << " " << have.size() << " world " << seed_); vh::event("indices judged"); }
                else for (auto k : second) VH_EXPECT(have.count(k), "definition.index_rows", index(t) << " has a row " << k << " which is not in the table, world " << seed_);
            }
            (void) ic;
            (void) h.commit();
            (void) e_->db->destroy_transaction(h);
        }
    }
    // the table was created again between
    static bool again(std::vector<record const*> const& defs, record const& d, record const& r) {
        for (auto* c : defs) if (c->w == what::create && c->e > d.s && c->s < r.e) return true;
        return false;
    }
    std::string snapshot() {
        std::ostringstream s;
        for (std::size_t t = 0; t < 3; ++t) {
            auto tb = e_->db->tables()->find_table(name(t));
            if (! tb) continue;
            auto& sm = *jogasaki::global::storage_manager();
            auto c = sm.find_by_name(name(t));
            VH_CHECK(c, "definition.entry", "no storage entry of " << name(t) << " world " << seed_);
            s << name(t) << (e_->db->tables()->find_index(index(t)) ? "+index " : " ");
            for (auto& [u, a] : sm.find_entry(*c)->authorized_actions()) { s << u << ":"; for (auto x : a) s << static_cast<int>(x) << ","; }
            auto h = e_->begin();
            auto got = exec(h, what::select, t, false);
            VH_EXPECT(got.ok, "definition.select", "SELECT fails: " << got.message << " world " << seed_);
            std::set<std::int64_t> k;
            for (auto& w : got.rows) k.insert(w[0].i);
            for (auto x : k) s << " " << x;
            (void) h.commit();
            (void) e_->db->destroy_transaction(h);
            s << "; ";
        }
        return s.str();
    }
    void settle() {
        (void) jogasaki::storage::maintenance_storage(nullptr);
        (void) jogasaki::storage::maintenance_storage(nullptr);
        std::size_t want = 0, got = 0;
        e_->db->tables()->each_index([&](std::string_view id, auto&) { if (id.substr(0, 2) != "__") ++want; });
        std::unique_lock lk{handle_->m};
        for (auto& [k, s] : handle_->stores) if (k.substr(0, 2) != "__") ++got;
        VH_EXPECT(got == want, "definition.storage_left", got << " storages are left for " << want << " tables and indices, world " << seed_);
    }
    void run(std::size_t clients, std::size_t txs) {
        vh::perturb::level() = 3 + static_cast<int>(vh::mix(seed_) % 25);
        taking_turns_ = true;
        round(clients, txs);
        taking_turns_ = false;
        vh::perturb::level() = 0;
        judge();
        auto a = snapshot();
        settle();
        close();
        open();
        auto b = snapshot();
        VH_EXPECT(a == b, "definition.restart", "after a restart: " << b << " before: " << a << " world " << seed_);
        vh::nontrivial(vh::hash(a));
    }
    // ---- directed: a statement is held in the middle
    record one(what w, std::size_t t, bool alice = false, std::int64_t key = 0) {
        auto h = e_->begin();
        auto r = exec(h, w, t, alice, key);
        if (r.ok) { auto rc = h.commit(); VH_EXPECT(rc == status::ok, "definition.commit", "COMMIT fails"); }
        (void) e_->db->destroy_transaction(h);
        return r;
    }
    struct gate {
        std::mutex m; std::condition_variable cv; bool here{}, open{}, used{};
        void wait_here() { std::unique_lock lk{m}; (void) cv.wait_for(lk, std::chrono::seconds(20), [&] { return here; }); }
        void release() { std::unique_lock lk{m}; open = true; cv.notify_all(); }
    };
    // while a SELECT is in its scan, nobody defines the table anew
    void held_select() {
        must_ok(one(what::create, 0));
        must_ok(one(what::create_index, 0));
        for (std::int64_t k = 1; k <= 3; ++k) must_ok(one(what::insert, 0, false, k));
        for (auto w : {what::drop, what::truncate, what::create_index, what::drop_index, what::grant, what::revoke}) {
            gate g;
            memkvs::ctl().hold = [&](char const* op) {
                if (std::string_view{op} != "iterator_next") return;
                std::unique_lock lk{g.m};
                if (g.used) return;
                g.used = g.here = true;
                g.cv.notify_all();
                (void) g.cv.wait_for(lk, std::chrono::seconds(20), [&] { return g.open; });
            };
            record s;
            std::thread t{[&] { s = one(what::select, 0); }};
            g.wait_here();
            auto r = one(w, 0);
            VH_EXPECT(! r.ok, "definition.exclusive", text_of(w) << " succeeds while a SELECT reads the table");
            g.release();
            t.join();
            memkvs::ctl().hold = {};
            VH_EXPECT(s.ok && s.rows.size() == 3, "definition.rows", "SELECT beside " << text_of(w) << (s.ok ? " returns " + std::to_string(s.rows.size()) + " rows of 3" : " fails: " + s.message));
            vh::event("held selects");
        }
        must_ok(one(what::drop, 0));
    }
    // while CREATE INDEX looks whether the table is empty, nobody adds rows
    void held_index() {
        must_ok(one(what::create, 1));
        gate g;
        memkvs::ctl().hold = [&](char const* op) {
            if (std::string_view{op} != "iterator_next") return;
            std::unique_lock lk{g.m};
            if (g.used) return;
            g.used = g.here = true;
            g.cv.notify_all();
            (void) g.cv.wait_for(lk, std::chrono::seconds(20), [&] { return g.open; });
        };
        record x;
        std::thread t{[&] { x = one(what::create_index, 1); }};
        g.wait_here();
        auto r = one(what::insert, 1, false, 7);
        g.release();
        t.join();
        memkvs::ctl().hold = {};
        VH_EXPECT(! (r.ok && x.ok), "definition.index_rows", "a row was added while CREATE INDEX looked for rows, and the index was created");
        if (x.ok && ! r.ok) must_ok(one(what::insert, 1, false, 8));
        auto a = one(what::select, 1);
        if (x.ok) { auto b = one(what::select_index, 1); VH_EXPECT(a.ok && b.ok && a.rows.size() == b.rows.size(), "definition.index_rows", "the index lacks rows"); }
        must_ok(one(what::drop, 1));
        vh::event("held indices");
    }
    // a dropped storage stays until its transaction ends, whatever the maintenance does
    void dropped(std::size_t rounds) {
        std::mutex m;
        std::set<std::string> dropping;
        std::atomic<bool> stop{false};
        memkvs::ctl().observe = {};
        vh::perturb::level() = 20;
        std::thread keeper{[&] { vh::perturb::seed_thread(seed_ * 77); while (! stop.load()) { (void) jogasaki::storage::maintenance_storage(nullptr); } }};
        vh::perturb::seed_thread(seed_ * 78);
        vh::guarded("definition.exception", [&] {
            for (std::size_t i = 0; i < rounds; ++i) {
                must_ok(one(what::create, 2));
                must_ok(one(what::create_index, 2));
                auto& sm = *jogasaki::global::storage_manager();
                auto k = sm.get_storage_key(name(2)), x = sm.get_storage_key(index(2));
                auto h = e_->begin();
                auto r = exec(h, i % 3 == 1 ? what::drop_index : what::drop, 2, false);
                must_ok(r);
                std::this_thread::sleep_for(std::chrono::microseconds(100));
                {
                    std::unique_lock lk{handle_->m};
                    VH_EXPECT(i % 3 == 1 || handle_->stores.count(*k), "definition.storage_lost", "the storage of a table is deleted before the transaction which drops it ends");
                    VH_EXPECT(handle_->stores.count(*x), "definition.storage_lost", "the storage of an index is deleted before the transaction which drops it ends");
                }
                VH_EXPECT(h.commit() == status::ok, "definition.commit", "COMMIT of a DROP fails");
                (void) e_->db->destroy_transaction(h);
                if (i % 3 == 1) must_ok(one(what::drop, 2));
                vh::event("drops beside maintenance");
            }
        });
        stop = true;
        keeper.join();
        vh::perturb::level() = 0;
        settle();
    }
    // one of those who create the same name does
    void same_name(std::size_t rounds) {
        vh::perturb::level() = 30;
        for (std::size_t i = 0; i < rounds; ++i) {
            constexpr std::size_t n = 3;
            std::atomic<std::size_t> go{0};
            std::atomic<std::size_t> ok{0};
            std::vector<std::thread> ts;
            for (std::size_t j = 0; j < n; ++j) ts.emplace_back([&, j] { vh::perturb::seed_thread(seed_ * 1000 + i * n + j); vh::guarded("definition.exception", [&] { ++go; while (go.load() < n) std::this_thread::yield(); if (one(what::create, 0).ok) ++ok; }); });
            for (auto& t : ts) t.join();
            VH_EXPECT(ok == 1, "definition.name", ok << " of " << n << " CREATE TABLE of one name succeed");
            auto h = one(what::insert, 0, false, 1);
            VH_EXPECT(h.ok, "definition.name", "the table created by one of several is not usable: " << h.message);
            must_ok(one(what::drop, 0));
            vh::event("same names");
        }
        vh::perturb::level() = 0;
        settle();
    }
    void must_ok(record const& r) { VH_CHECK(r.ok, "definition.refused", show(r) << " world " << seed_); }
private:
    std::uint64_t seed_;
    std::size_t threads_;
    bool tsan_;
    std::unique_ptr<sharksfin::DatabaseStub> handle_{};
    std::unique_ptr<engine> e_{};
    std::vector<std::vector<std::string>> texts_{};
    std::atomic<std::uint64_t> clock_{0};
    std::atomic<std::size_t> next_tx_{0};
    std::atomic<std::int64_t> next_key_{0};
    std::vector<record> all_{};
    turns turns_[3];
    bool taking_turns_{};
};
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    bool tsan = argc > 1 && std::string_view{argv[1]} == "tsan";
    return vh::main(argc, argv, "c37_concurrent", "distinct catalogues left by clients which define and use tables at the same time", [tsan] {
        vh::guarded("definition.exception", [&] { world w{vh::seed(), 2, tsan}; w.held_select(); w.held_index(); });
        vh::guarded("definition.exception", [&] { world w{vh::seed(), 2, tsan}; w.dropped(vh::scale(tsan ? 60 : 200, 2000)); });
        vh::guarded("definition.exception", [&] { world w{vh::seed(), 2, tsan}; w.same_name(vh::scale(tsan ? 60 : 150, 1500)); });
        std::size_t n = vh::scale(tsan ? 80 : 300, tsan ? 800 : 4000);
        for (std::size_t i = 0; i < n; ++i) vh::guarded("definition.exception", [&] { world w{vh::seed() * 1000003 + i, 1 + i % 4, tsan}; w.run(3 + i % 3, 25); });
    });
}
