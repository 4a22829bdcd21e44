// Statements, commits, rollbacks and disposals of the same transactions from several threads at once:
// every request answered once, the end of a transaction never overlapping its work, all of it or nothing stored.
#include "db.h"
#include <future>
#include <set>
#include <thread>
#include <glog/logging.h>
#include <jogasaki/api/commit_option.h>
#include <jogasaki/api/impl/result_store_channel.h>
#include <jogasaki/api/transaction_option.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/request_info.h>
#include <jogasaki/transaction_context.h>
using namespace dbx;
using SC = sharksfin::StatusCode;
using jogasaki::transaction_state_kind;
static bool tsan = false;
static std::atomic<std::uint64_t> clock_{1};
static std::uint64_t tick() { return clock_.fetch_add(1, std::memory_order_relaxed); }

enum class act { insert, update, select, divide, unresolved, commit, abort, dispose };
static char const* name_of(act a) {
    switch (a) {
        case act::insert: return "INSERT";
        case act::update: return "UPDATE";
        case act::select: return "SELECT";
        case act::divide: return "SELECT 1/0";
        case act::unresolved: return "SELECT :p";
        case act::commit: return "COMMIT";
        case act::abort: return "ROLLBACK";
        default: return "DISPOSE";
    }
}
struct cancel_after : tateyama::api::server::response {
    mutable std::atomic<int> left{};
    mutable std::atomic<bool> hit{};
    bool check_cancel() const override { if (left.fetch_sub(1, std::memory_order_relaxed) > 0) return false; hit = true; return true; }
};
struct request {
    act a{};
    std::size_t id{}, n{};
    std::uint64_t begin{}, end{};           // of the call
    std::atomic<std::uint64_t> told{};      // first answer
    std::atomic<int> answers{};
    status st{};
    error_code code{};
    std::string message{};
    bool auto_dispose{};
    jogasaki::commit_response_kind kind{};
    std::uint64_t durable{};                // marker announced when the answer came
    std::shared_ptr<cancel_after> cancel{};
    std::unique_ptr<jogasaki::data::result_store> store{};
    api::statement_handle handle{};
    std::string text{};
    bool ok() const { return st == status::ok; }
    bool canceled() const { return cancel && cancel->hit; }
    bool statement() const { return a == act::insert || a == act::update || a == act::select || a == act::divide; }
};
struct transaction {
    std::size_t no{};
    api::transaction_handle h{};
    std::shared_ptr<jogasaki::transaction_context> ctx{};
    bool ro{}, fault{};
    std::mutex m;
    std::vector<std::shared_ptr<request>> reqs;
    std::shared_ptr<request> add(act a) {
        auto q = std::make_shared<request>();
        q->a = a;
        std::unique_lock lk{m};
        reqs.push_back(q);
        return q;
    }
};
struct stored { std::int64_t tx{}, stmt{}, n{}, mark{}; };

class world {
public:
    world(vh::rng& r, engine& e, std::uint64_t seed) : r_(r), e_(e), seed_(seed) {}
    void run(std::size_t rounds) {
        std::atomic<bool> stop{false};
        // the engine tells now and then what is durable
        std::thread durable;
        if (memkvs::ctl().delay_durability) durable = std::thread{[&] { while (! stop) { announce(); std::this_thread::sleep_for(std::chrono::microseconds(300)); } announce(); }};
        struct at_end { std::function<void()> f; ~at_end() { f(); } } end{[&] { stop = true; if (durable.joinable()) durable.join(); }};
        fdesc f8; f8.k = kind::int8; f8.nullable = false;
        auto o = e_.run(e_.create_table("T", {{"id", f8}, {"tx", f8}, {"stmt", f8}, {"n", f8}, {"mark", f8}}, {{0, true}}));
        VH_CHECK(o.ok(), "request.setup", "CREATE TABLE: " << o.message);
        if (r_.coin(60)) {
            auto i = e_.run(e_.create_index("T", "T2", {{1, true}}));
            VH_CHECK(i.ok(), "request.setup", "CREATE INDEX: " << i.message);
        }
        for (std::size_t i = 0; i < rounds; ++i) round();
    }
private:
    vh::rng& r_;
    engine& e_;
    std::uint64_t seed_;
    std::atomic<std::uint64_t> announced_{};
    std::atomic<std::size_t> next_id_{1}, next_stmt_{1};
    std::size_t next_tx_{1};
    std::mutex texts_;

    void announce() {
        auto* h = jogasaki::global::db()->handle();
        std::uint64_t m{};
        std::vector<sharksfin::durability_callback_type> cbs;
        { std::unique_lock lk{h->m}; m = h->marker; cbs = h->durability; }
        announced_ = m;
        for (auto& c : cbs) c(m);
    }
    static eptr i8(yugawara::compile_environment& env, std::int64_t n) { val v; v.null = false; v.i = n; return literal(env, kind::int8, v); }
    static var column_of(plan_builder& pb, ys::table const& t, std::string_view name) {
        for (auto& c : t.columns()) if (c.simple_name() == name) return pb.b(c);
        std::abort();
    }
    static constexpr std::array<char const*, 5> columns{"id", "tx", "stmt", "n", "mark"};
    static tr::scan& scan(plan_builder& pb, tp::process& p, std::vector<var>& vs, std::string const& by = "T") {
        auto t = pb.tables().find_table("T");
        std::vector<tr::scan::column> m;
        for (auto c : columns) { vs.push_back(pb.stream(xt::type_of(kind::int8))); m.emplace_back(column_of(pb, *t, c), vs.back()); }
        return p.operators().emplace<tr::scan>(pb.b(*pb.tables().find_index(by)), std::move(m));
    }
    std::string put(std::string const& what, builder f) { std::unique_lock lk{texts_}; return e_.put(what, std::move(f)); }
    std::string insert(std::size_t tx, std::size_t stmt, std::size_t n) {
        auto first = next_id_.fetch_add(n);
        return put("INSERT", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto t = env.schema.shared_storage_provider()->find_table("T");
            yugawara::binding::factory b{};
            std::vector<tr::details::values_row> rows;
            for (std::size_t i = 0; i < n; ++i) {
                std::vector<eptr> e;
                for (std::int64_t v : {static_cast<std::int64_t>(first + i), static_cast<std::int64_t>(tx), static_cast<std::int64_t>(stmt), static_cast<std::int64_t>(n), std::int64_t{0}}) e.push_back(i8(env, v));
                rows.emplace_back(std::move(e));
            }
            std::vector<var> cs;
            for (auto& c : t->columns()) cs.push_back(b(c));
            return std::make_unique<tst::write>(tr::write_kind::insert, b(*env.schema.shared_storage_provider()->find_primary_index(*t)), std::move(cs), std::move(rows));
        });
    }
    std::string update(std::size_t tx, std::size_t stmt) {
        return put("UPDATE", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            plan_builder pb{env};
            auto& p = pb.process();
            std::vector<var> v;
            auto& s = scan(pb, p, v);
            auto cmp = std::make_unique<takatori::scalar::compare>(takatori::scalar::comparison_operator::equal, reference(env, v[1]), i8(env, static_cast<std::int64_t>(tx)));
            env.info.bind(*cmp, xt::type_of(kind::boolean));
            auto& f = p.operators().emplace<tr::filter>(std::move(cmp));
            s.output() >> f.input();
            auto m = pb.stream(xt::type_of(kind::int8));
            std::vector<tr::project::column> pc;
            pc.emplace_back(m, i8(env, static_cast<std::int64_t>(stmt)));
            auto& j = p.operators().emplace<tr::project>(std::move(pc));
            f.output() >> j.input();
            auto t = pb.tables().find_table("T");
            std::vector<tr::write::key> keys;
            keys.emplace_back(v[0], column_of(pb, *t, "id"));
            std::vector<tr::write::column> cs;
            cs.emplace_back(m, column_of(pb, *t, "mark"));
            auto& w = p.operators().emplace<tr::write>(tr::write_kind::update, pb.b(*pb.tables().find_index("T")), std::move(keys), std::move(cs));
            j.output() >> w.input();
            return std::move(pb.stmt);
        });
    }
    // sometimes through a group exchange, so that several tasks work
    std::string select(bool divide, bool group, bool unresolved) {
        return put(divide ? "SELECT 1/0" : "SELECT", [=](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            plan_builder pb{env};
            auto* p = &pb.process();
            std::vector<var> v;
            auto& s = scan(pb, *p, v);
            std::vector<tr::emit::column> ec;
            if (group) {
                auto same = [&] { std::vector<var> w; for (std::size_t i = 0; i < v.size(); ++i) w.push_back(pb.stream(xt::type_of(kind::int8))); return w; };
                auto ex = same();
                auto& x = pb.g().emplace<tp::group>(ex, std::vector<var>{ex[1]});
                std::vector<tr::step::offer::column> oc;
                for (std::size_t i = 0; i < v.size(); ++i) oc.emplace_back(v[i], ex[i]);
                auto& off = p->operators().emplace<tr::step::offer>(pb.b(x), std::move(oc));
                s.output() >> off.input();
                *p >> x;
                p = &pb.process();
                x >> *p;
                auto out = same();
                std::vector<tr::step::take_group::column> tc;
                for (std::size_t i = 0; i < v.size(); ++i) tc.emplace_back(ex[i], out[i]);
                auto& tk = p->operators().emplace<tr::step::take_group>(pb.b(x), std::move(tc));
                auto& fl = p->operators().emplace<tr::step::flatten>();
                tk.output_ports()[0] >> fl.input_ports()[0];
                finish(env, pb, *p, fl.output_ports()[0], out, ec, divide, unresolved);
            } else finish(env, pb, *p, s.output(), v, ec, divide, unresolved);
            return std::move(pb.stmt);
        });
    }
    template <class Port> static void finish(yugawara::compile_environment& env, plan_builder& pb, tp::process& p, Port& out, std::vector<var> const& v, std::vector<tr::emit::column>& ec, bool divide, bool unresolved) {
        auto names = columns.begin();
        for (auto& x : v) ec.emplace_back(x, *names++);
        (void) unresolved;
        if (divide) {
            auto y = pb.stream(xt::type_of(kind::int8));
            std::vector<tr::project::column> pc;
            auto e = std::make_unique<takatori::scalar::binary>(takatori::scalar::binary_operator::divide, i8(env, 1), i8(env, 0));
            env.info.bind(*e, xt::type_of(kind::int8));
            pc.emplace_back(y, std::move(e));
            auto& j = p.operators().emplace<tr::project>(std::move(pc));
            out >> j.input();
            ec.emplace_back(y, "d");
            auto& em = p.operators().emplace<tr::emit>(std::move(ec));
            j.output() >> em.input();
            return;
        }
        auto& em = p.operators().emplace<tr::emit>(std::move(ec));
        out >> em.input();
    }
    static void answer(std::shared_ptr<request> const& q, status st, error_code c, std::string_view msg) {
        if (q->answers.fetch_add(1) != 0) { vh::record_fail("request.twice", std::string{name_of(q->a)} + " is answered again: " + std::to_string(static_cast<int>(st))); return; }
        q->st = st;
        q->code = c;
        q->message = msg;
        q->told.store(tick(), std::memory_order_release);
    }
    void submit(transaction& t, vh::rng& g, act a) {
        auto q = t.add(a);
        q->id = next_stmt_.fetch_add(1);
        bool group = g.coin(30);
        jogasaki::request_info info{};
        if (a != act::abort && a != act::dispose && g.coin(6)) {
            q->cancel = std::make_shared<cancel_after>();
            q->cancel->left = static_cast<int>(g.below(12));
            info = jogasaki::request_info{q->id, nullptr, q->cancel};
        }
        switch (a) {
            case act::abort:
                q->begin = tick();
                { auto h = t.h; answer(q, h.abort_transaction(), {}, {}); }
                q->end = tick();
                return;
            case act::dispose:
                q->begin = tick();
                answer(q, e_.db->destroy_transaction(t.h), {}, {});
                q->end = tick();
                return;
            case act::commit: {
                static const std::vector<jogasaki::commit_response_kind> ks{jogasaki::commit_response_kind::undefined, jogasaki::commit_response_kind::accepted, jogasaki::commit_response_kind::available, jogasaki::commit_response_kind::stored, jogasaki::commit_response_kind::propagated};
                q->kind = g.pick(ks);
                q->auto_dispose = g.coin(25);
                api::commit_option opt{q->auto_dispose, q->kind};
                q->begin = tick();
                auto h = t.h;
                h.commit_async([q, this](status st, std::shared_ptr<api::error_info> e) {
                    if (st == status::ok) q->durable = announced_.load();
                    answer(q, st, e ? e->code() : error_code{}, e ? e->message() : "");
                }, opt, info);
                q->end = tick();
                return;
            }
            default: break;
        }
        q->n = 1 + g.below(12);
        switch (a) {
            case act::insert: q->text = insert(t.no, q->id, q->n); break;
            case act::update: q->text = update(t.no, q->id); break;
            case act::divide: q->text = select(true, group, false); break;
            default: q->text = select(false, group, false); break;
        }
        std::shared_ptr<jogasaki::error::error_info> err{};
        auto rc = e_.db->prepare(q->text, {}, q->handle, err);
        if (rc != status::ok) { vh::record_fail("request.prepare", q->text + " is not prepared: " + std::to_string(static_cast<int>(rc))); answer(q, rc, {}, {}); return; }
        q->store = std::make_unique<jogasaki::data::result_store>();
        auto ch = std::make_shared<api::impl::result_store_channel>(jogasaki::maybe_shared_ptr{q->store.get()});
        q->begin = tick();
        auto c = e_.db->find_transaction(t.h);
        if (! c) { answer(q, status::err_invalid_argument, error_code::transaction_not_found_exception, "no transaction"); q->end = tick(); }
        else {
            (void) jogasaki::executor::execute_async(*e_.db, c, q->handle, api::create_parameter_set(), ch,
                [q](status st, std::shared_ptr<jogasaki::error::error_info> e, std::shared_ptr<jogasaki::request_statistics>) { answer(q, st, e ? e->code() : error_code{}, e ? e->message() : ""); }, false, info);
            q->end = tick();
        }
        if (g.coin(30)) { (void) e_.db->destroy_statement(q->handle); q->handle = {}; }
        // sometimes wait for the answer
        if (g.coin(60)) wait(*q);
    }
    static bool wait(request& q) {
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        for (std::size_t i = 0; q.told.load(std::memory_order_acquire) == 0; ++i) {
            if (i < 50) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(50));
            if (std::chrono::steady_clock::now() > until) return false;
        }
        return true;
    }
    std::vector<stored> rows_of(request& q) {
        outcome o;
        std::unique_ptr<api::result_set> rs = std::make_unique<api::impl::result_set>(std::move(q.store));
        engine::read(rs, o);
        std::vector<stored> v;
        for (auto& w : o.rows) v.push_back({w[1].i, w[2].i, w[3].i, w[4].i});
        return v;
    }
    std::size_t jobs() {
        auto s = e_.db->diagnostic_string();
        auto at = s.find("job_count: ");
        return at == std::string::npos ? 0 : static_cast<std::size_t>(std::strtoull(s.c_str() + at + 11, nullptr, 10));
    }
    void round() {
        vh::phase("world " + std::to_string(seed_));
        std::vector<std::unique_ptr<transaction>> txs;
        auto n = 1 + r_.below(3);
        for (std::size_t i = 0; i < n; ++i) {
            auto t = std::make_unique<transaction>();
            t->no = next_tx_++;
            t->ro = r_.coin(20);
            api::transaction_option o{};
            if (t->ro) { o.readonly(true); if (r_.coin(70)) o.scan_parallel(static_cast<std::uint32_t>(r_.below(4))); }
            else if (r_.coin(20)) o = api::transaction_option{jogasaki::transaction_type_kind::ltx, {"T"}};
            if (t->ro || o.is_long()) memkvs::ctl().waiting_start = static_cast<int>(r_.below(4));
            if (r_.coin(20)) o.session_id(r_.below(3));
            t->h = e_.begin(o);
            t->ctx = e_.db->find_transaction(t->h);
            VH_CHECK(t->ctx, "request.begin", "a transaction just begun is not found");
            VH_CHECK(t->ctx->state() == transaction_state_kind::active, "request.begin_state", "a transaction just begun is " << t->ctx->state());
            txs.push_back(std::move(t));
        }
        // a failure of the engine
        std::atomic<int> left{-1};
        std::atomic<bool> hit{false};
        bool faulty = r_.coin(12);
        std::string op;
        SC code{};
        if (faulty) {
            static const std::vector<std::string> ops{"content_put", "transaction_commit", "content_get", "content_scan", "iterator_next"};
            static const std::vector<SC> codes{SC::ERR_ABORTED_RETRYABLE, SC::ERR_CONFLICT_ON_WRITE_PRESERVE};
            op = r_.pick(ops);
            code = r_.pick(codes);
            left = static_cast<int>(r_.below(6));
            memkvs::ctl().fault = [&](char const* what) { if (op == what && left.fetch_sub(1) == 0) { hit = true; return code; } return SC::OK; };
        }
        auto calm = r_.coin(25);    // one client per transaction which waits for nothing and does not end it
        std::vector<std::thread> clients;
        auto k = calm ? n : 1 + r_.below(4);
        for (std::size_t c = 0; c < k; ++c) {
            auto s = r_.next();
            clients.emplace_back([&, s, c] {
                vh::rng g{s};
                auto m = 2 + g.below(7);
                for (std::size_t i = 0; i < m; ++i) {
                    auto& t = calm ? *txs[c] : *g.pick(txs);
                    auto x = g.below(100);
                    auto a = x < 45 ? act::insert : x < 60 ? act::update : x < 77 ? act::select : x < 80 ? act::divide : x < 90 ? act::commit : x < 97 ? act::abort : act::dispose;
                    if (calm && (x >= 77)) a = act::select;
                    submit(t, g, a);
                }
            });
        }
        for (auto& c : clients) c.join();
        memkvs::ctl().waiting_start = 0;
        // everything is answered in the end, and a last commit settles each transaction
        for (auto& t : txs) {
            if (r_.coin(70)) for (auto& q : t->reqs) VH_CHECK(wait(*q), "request.unanswered", "world " << seed_ << ": " << name_of(q->a) << " is never answered");
            vh::rng g{r_.next()};
            submit(*t, g, r_.coin(90) ? act::commit : act::abort);
        }
        for (auto& t : txs) for (auto& q : t->reqs) VH_CHECK(wait(*q), "request.unanswered", "world " << seed_ << ": " << name_of(q->a) << " is never answered");
        // no job is left behind (those of durability callbacks come and go)
        auto until = std::chrono::steady_clock::now() + std::chrono::seconds(60);
        std::size_t left_jobs{};
        while ((left_jobs = jobs()) != 0 && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(std::chrono::microseconds(200));
        VH_CHECK(left_jobs == 0, "request.jobs", "world " << seed_ << ": " << left_jobs << " jobs remain after all requests are answered: " << e_.db->diagnostic_string());
        memkvs::ctl().fault = {};
        while (memkvs::ctl().open_iters != 0 && std::chrono::steady_clock::now() < until) std::this_thread::sleep_for(std::chrono::microseconds(200));
        VH_CHECK(memkvs::ctl().open_iters == 0, "request.iterators", memkvs::ctl().open_iters << " iterators are left open");
        judge(txs, hit);
        for (auto& t : txs) {
            for (auto& q : t->reqs) {
                if (q->handle) VH_CHECK(e_.db->destroy_statement(q->handle) == status::ok, "request.statement", "a statement handle is lost");
                if (! q->text.empty()) yugawara::statement_registry::instance().erase(q->text);
            }
            (void) e_.db->destroy_transaction(t->h);
            VH_CHECK(! e_.db->find_transaction(t->h), "request.dispose", "a transaction is found after its disposal");
            t->ctx.reset();
        }
        txs.clear();
        vh::event("rounds");
    }
    static std::string tell(transaction const& t) {
        std::vector<std::pair<std::uint64_t, std::string>> ev;
        std::size_t i = 0;
        for (auto& q : t.reqs) {
            auto label = std::to_string(++i) + ":" + name_of(q->a);
            ev.emplace_back(q->begin, label + (q->a == act::insert ? " x" + std::to_string(q->n) : "") + (q->cancel ? " (to be canceled)" : ""));
            ev.emplace_back(q->told.load(), label + " -> " + std::to_string(static_cast<int>(q->st)) + (q->message.empty() ? "" : " " + q->message));
        }
        std::sort(ev.begin(), ev.end());
        std::string s = t.ro ? "read only: " : "";
        for (auto& e : ev) s += e.second + "; ";
        return s;
    }
    void judge(std::vector<std::unique_ptr<transaction>>& txs, bool fault) {
        // what is stored, by transaction and statement
        auto text = select(false, false, false);
        auto o = e_.run(text);
        yugawara::statement_registry::instance().erase(text);
        VH_CHECK(o.ok(), "request.select", "the last look at the table fails: " << o.message);
        std::map<std::pair<std::int64_t, std::int64_t>, std::size_t> have;
        std::map<std::int64_t, std::set<std::int64_t>> marks;
        for (auto& w : o.rows) { ++have[{w[1].i, w[2].i}]; marks[w[1].i].insert(w[4].i); }
        std::map<std::int64_t, bool> committed;     // of this round, when it is sure
        for (auto& pt : txs) {
            auto& t = *pt;
            auto where = "world " + std::to_string(seed_) + ": " + tell(t);
            std::vector<request*> commits, ends;
            bool unsure = false, canceled = false;
            request* done = nullptr;
            for (auto& q : t.reqs) {
                canceled = canceled || q->canceled();
                if (q->a == act::commit) {
                    if (q->ok()) {
                        VH_CHECK(! done, "request.two_commits", where << " two commits succeed");
                        done = q.get();
                    } else if (q->canceled()) unsure = true;
                }
                vh::event(std::string{name_of(q->a)} + (q->ok() ? " done" : " refused"));
            }
            // real-time order: what ended before the other was begun
            for (auto& q : t.reqs) for (auto& z : t.reqs) {
                if (q == z || ! q->ok() || z->told > q->begin || q->a == act::abort || q->a == act::dispose) continue;
                if (z->a == act::dispose && z->ok()) VH_CHECK(false, "request.after_dispose", where << " " << name_of(q->a) << " succeeds after the disposal of the transaction");
                if (z->a == act::abort && z->ok()) VH_CHECK(false, "request.after_rollback", where << " " << name_of(q->a) << " succeeds after a rollback");
                if (z->a == act::commit && z->code != error_code::transaction_not_found_exception) VH_CHECK(false, "request.after_commit", where << " " << name_of(q->a) << " succeeds after the answer to a commit");
                if (z->statement() && ! z->ok() && z->code != error_code::transaction_not_found_exception) VH_CHECK(false, "request.after_failure", where << " " << name_of(q->a) << " succeeds after a statement failed");
            }
            // nothing is refused for no reason
            for (auto& q : t.reqs) {
                if (q->ok() || q->a == act::dispose || q->a == act::divide || fault || canceled) continue;
                if (t.ro && (q->a == act::insert || q->a == act::update)) continue;
                bool reason = false;
                for (auto& z : t.reqs) {
                    if (z == q || z->begin > q->told) continue;
                    if (! z->statement()) { reason = reason || z->a != act::dispose || z->ok(); continue; }
                    if (! z->ok()) reason = true;
                    if (q->a == act::commit && z->told > q->begin) reason = true;
                }
                VH_CHECK(reason, "request.refused", where << " " << name_of(q->a) << " is refused for no reason: " << static_cast<int>(q->st) << " " << q->message);
            }
            for (auto& q : t.reqs) {
                VH_CHECK(q->answers == 1, "request.twice", where << " " << name_of(q->a) << " is answered " << q->answers << " times");
                if (! q->ok() && q->a != act::abort && q->a != act::dispose) VH_CHECK(q->code != error_code{} && q->code != error_code::none, "request.no_error", where << " " << name_of(q->a) << " fails without an error code: " << static_cast<int>(q->st));
            }
            // all or nothing
            if (t.ro && done) vh::event("read only transactions committed");
            for (auto& q : t.reqs) {
                if (q->a != act::insert) continue;
                auto it = have.find({static_cast<std::int64_t>(t.no), static_cast<std::int64_t>(q->id)});
                auto got = it == have.end() ? 0 : it->second;
                if (done) VH_CHECK(got == (q->ok() ? q->n : 0), "request.partial", where << " " << got << " rows of an INSERT of " << q->n << " (" << (q->ok() ? "done" : "refused") << ") are stored after the commit");
                else if (! unsure) VH_CHECK(got == 0, "request.survivors", where << " " << got << " rows of an INSERT are stored though the transaction did not commit");
                else VH_CHECK(got == 0 || (got == q->n && q->ok()), "request.partial", where << " " << got << " rows of an INSERT of " << q->n << " are stored");
            }
            for (auto m : marks[static_cast<std::int64_t>(t.no)]) {
                bool fine = m == 0;
                // a commit is refused only while a task of a statement runs (docs/internal/concurrent_end_tx.md), so that
                // an UPDATE of several tasks on which a commit is requested meanwhile is refused in the middle
                for (auto& q : t.reqs) fine = fine || (q->a == act::update && static_cast<std::int64_t>(q->id) == m && (q->ok() || (done && done->begin < q->told)));
                VH_CHECK(fine, "request.partial", where << " rows carry the mark " << m << " of an UPDATE which did not succeed");
            }
            committed[static_cast<std::int64_t>(t.no)] = done != nullptr;
            // the state it is left in
            auto s = t.ctx->state();
            using sk = transaction_state_kind;
            bool aborted = false;
            for (auto& q : t.reqs) aborted = aborted || (q->a == act::abort && q->ok());
            if (done) VH_CHECK(s == sk::committed_available || s == sk::committed_stored || (canceled && s == sk::unknown), "request.state", where << " the transaction is " << s << " after its commit");
            else if (! unsure && aborted) VH_CHECK(s == sk::aborted, "request.state", where << " the transaction is " << s << " after its rollback");
            else if (! unsure) VH_CHECK(s == sk::aborted || s == sk::active, "request.state", where << " the transaction is " << s << " in the end");
            if (done && (done->kind == jogasaki::commit_response_kind::stored || done->kind == jogasaki::commit_response_kind::propagated)) {
                VH_CHECK(s == sk::committed_stored || (canceled && s == sk::unknown), "request.state", where << " the transaction is " << s << " after it was stored");
                if (memkvs::ctl().delay_durability) {
                    VH_CHECK(t.ctx->durability_marker().has_value() && *t.ctx->durability_marker() <= done->durable, "request.early_stored", where << " told to be stored at marker " << done->durable << " although it is part of " << t.ctx->durability_marker().value_or(0));
                    vh::event("durability awaited");
                }
            }
            if (done && done->auto_dispose) VH_CHECK(! e_.db->find_transaction(t.h), "request.auto_dispose", where << " the transaction is still there after a commit which disposes of it");
            std::size_t overlaps = 0;
            for (auto& q : t.reqs) for (auto& z : t.reqs) if (q != z && q->begin < z->begin && q->told > z->begin && (z->a == act::commit || z->a == act::abort)) ++overlaps;
            vh::event("ends requested while statements run", overlaps);
            std::string shape;
            for (auto& q : t.reqs) shape += std::string{name_of(q->a)} + std::to_string(static_cast<int>(q->st)) + ",";
            if (overlaps != 0) vh::nontrivial(vh::hash(shape + std::to_string(overlaps)));
        }
        // what the queries saw
        for (auto& pt : txs) {
            auto& t = *pt;
            auto where = "world " + std::to_string(seed_) + ": " + tell(t);
            for (auto& q : t.reqs) {
                if (q->a != act::select || ! q->ok()) continue;
                auto rows = rows_of(*q);
                std::map<std::int64_t, std::size_t> by_stmt;
                std::map<std::int64_t, std::size_t> by_tx;
                for (auto& w : rows) { ++by_stmt[w.stmt]; ++by_tx[w.tx]; }
                for (auto& w : rows) VH_CHECK(by_stmt[w.stmt] == static_cast<std::size_t>(w.n), "request.torn_read", where << " a query sees " << by_stmt[w.stmt] << " of " << w.n << " rows of an INSERT");
                for (auto& z : t.reqs) if (z->a == act::insert) {
                    auto seen = by_stmt.count(static_cast<std::int64_t>(z->id)) != 0;
                    if (z->ok() && z->told < q->begin) VH_CHECK(seen, "request.lost_write", where << " a query does not see the rows inserted before in its transaction");
                    if (z->begin > q->told) VH_CHECK(! seen, "request.future_read", where << " a query sees rows inserted afterwards");
                }
                for (auto& pz : txs) {
                    if (pz.get() == &t || t.ro) continue;
                    bool seen = by_tx.count(static_cast<std::int64_t>(pz->no)) != 0;
                    bool unsure = false;
                    for (auto& z : pz->reqs) unsure = unsure || (z->a == act::commit && z->canceled());
                    if (seen) VH_CHECK(unsure || committed[static_cast<std::int64_t>(pz->no)], "request.dirty_read", where << " a query sees rows of a transaction which did not commit: " << tell(*pz));
                }
                vh::event("rows read", rows.size());
            }
        }
    }
};
static void one(std::uint64_t seed, std::size_t rounds) {
    vh::rng r{seed};
    auto e = std::make_unique<engine>(1 + r.below(5));
    auto& c = *e->cfg;
    c.inplace_dag_schedule(r.coin());
    c.inplace_teardown(r.coin());
    c.stealing_enabled(r.coin(70));
    c.scan_block_size(r.coin() ? 1 + r.below(5) : 100);
    c.scan_yield_interval(r.coin() ? 0 : 1);
    c.enable_hybrid_scheduler(r.coin());
    c.direct_commit_callback(r.coin());
    c.omit_task_when_idle(r.coin());
    c.profile_commits(r.coin(20));
    if (r.coin(40)) c.default_commit_response(r.coin() ? jogasaki::commit_response_kind::accepted : jogasaki::commit_response_kind::stored);
    auto& k = memkvs::ctl();
    k.delay_durability = r.coin();
    // slow engine
    auto slow = static_cast<int>(r.below(3));
    k.hold = [slow](char const*) {
        static thread_local std::uint64_t s = vh::mix(tick());
        s = s * 6364136223846793005ULL + 1442695040888963407ULL;
        auto v = s >> 40;
        if (slow == 0) return;
        if (v % 8 == 0) std::this_thread::yield();
        else if (v % 8 == 1) std::this_thread::sleep_for(std::chrono::microseconds(v / 8 % (slow == 1 ? 30 : 200)));
    };
    k.misuse = [seed](std::string const& m) { vh::record_fail("request.overlap", "world " + std::to_string(seed) + ": " + m); if (getenv("VH_STOP")) std::this_thread::sleep_for(std::chrono::seconds(60)); };
    std::mutex pm;
    std::vector<std::future<void>> pending;
    if (r.coin(30)) k.later = [&](std::function<void()> f) {
        std::unique_lock lk{pm};
        pending.push_back(std::async(std::launch::async, [f = std::move(f)]() mutable { std::this_thread::sleep_for(std::chrono::microseconds(vh::mix(tick()) % 300)); auto g = std::move(f); g(); }));
    };
    e->start();
    { world w{r, *e, seed}; vh::guarded("world", [&] { w.run(rounds); }); }
    for (;;) { std::vector<std::future<void>> v; { std::unique_lock lk{pm}; v.swap(pending); } if (v.empty()) break; for (auto& f : v) f.get(); }
    k.fault = {};
    e.reset();
    VH_EXPECT(k.open_txs == 0, "request.transactions", "world " << seed << ": " << k.open_txs << " transactions are left open");
    VH_EXPECT(k.open_strands == 0, "request.strands", "world " << seed << ": " << k.open_strands << " strands are left open");
    k.hold = {};
    k.later = {};
    k.misuse = {};
    k.delay_durability = false;
}
static void body() {
    auto rounds = tsan ? 12U : 25U;
    if (auto* p = getenv("DB")) { one(std::strtoull(p, nullptr, 10), rounds); return; }
    vh::rng r{vh::seed() * 6113 + (tsan ? 5 : 0)};
    auto n = tsan ? vh::scale(40, 500) : vh::scale(80, 1200);
    for (std::size_t i = 0; i < n; ++i) vh::guarded("world", [&] { one(r.next(), rounds); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    if (! getenv("GLOG_v")) FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c35_requests", "the end of a transaction is requested while its statements run", body);
}
