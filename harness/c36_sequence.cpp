// C36: sequences. Random sequences are used by concurrent transactions which commit, abort or meet faults of the storage engine,
// while other threads create and drop sequences; then the engine "restarts" (a new manager reads what the committed ones stored).
#include "db.h"
#define VH_PERTURB_IMPL
#include "perturb.h"
#include <deque>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/executor/sequence/metadata_store.h>
#include <jogasaki/kvs/system_storage.h>
using namespace jogasaki;
namespace sq = executor::sequence;
namespace {
using val = sequence_value;
struct spec {
    std::size_t def{};
    val init{}, inc{1}, min{}, max{};
    bool cycle{};
    std::string name;
    std::size_t id{};                       // what the storage engine calls it
    // what has been given: the version the next value steps from, and its value
    std::size_t version{1};
    val cur{};
    std::map<val, std::size_t> versions;    // of values given in this life, when it does not cycle
    // what is stored
    std::size_t stored{};
    val stored_value{};
    bool exhausted{};
    std::string text() const {
        std::ostringstream o;
        o << name << "{init " << init << " inc " << inc << " min " << min << " max " << max << (cycle ? " cycle" : "") << "}";
        return o.str();
    }
    // the value after (version, v); nothing when a bound is passed
    std::optional<val> step(std::size_t ver, val v) const {
        if (ver == 1) return init;
        __int128 n = static_cast<__int128>(v) + inc;
        if (n > max) { if (cycle) return min; return {}; }
        if (n < min) { if (cycle) return max; return {}; }
        return static_cast<val>(n);
    }
};
val edge(vh::rng& r, val lo, val hi) {
    switch (r.below(6)) {
        case 0: return lo;
        case 1: return hi;
        case 2: return lo <= 0 && 0 <= hi ? 0 : lo;
        case 3: { val d = r.range(0, 20); return d <= static_cast<__int128>(hi) - lo ? lo + d : hi; }
        case 4: { val d = r.range(0, 20); return d <= static_cast<__int128>(hi) - lo ? hi - d : lo; }
        default: return r.range(lo, hi);
    }
}
spec make(vh::rng& r, std::size_t def) {
    spec s;
    s.def = def;
    s.name = "s" + std::to_string(def);
    s.cycle = r.coin(35);
    using L = std::numeric_limits<val>;
    if (r.coin(50)) { s.min = r.range(-40, 10); s.max = s.min + r.range(0, 60); }
    else {
        val a = r.edgy<val>(), b = r.edgy<val>();
        s.min = std::min(a, b);
        s.max = std::max(a, b);
    }
    if (r.coin(20)) { s.min = L::min(); }
    if (r.coin(20)) { s.max = L::max(); }
    switch (r.below(6)) {
        case 0: s.inc = 1; break;
        case 1: s.inc = -1; break;
        case 2: s.inc = r.range(1, 9); break;
        case 3: s.inc = -r.range(1, 9); break;
        case 4: s.inc = r.edgy<val>(); break;
        default: s.inc = (r.coin() ? 1 : -1) * (static_cast<val>(1) << r.range(50, 62)); break;
    }
    if (s.inc == 0) s.inc = 1;
    s.init = edge(r, s.min, s.max);
    s.cur = s.init;
    return s;
}
struct given { std::size_t seq; val v; };
struct txlog { std::string id; std::vector<given> got; bool committed{}; };
struct put { std::string tx; std::size_t id, version; val v; };
struct world {
    vh::rng r;
    std::shared_ptr<kvs::database> db;
    std::unique_ptr<sq::manager> m;
    std::deque<spec> seqs;
    std::set<std::size_t> dropped, unsure;
    std::mutex lock;
    std::vector<txlog> logs;
    std::vector<put> puts;
    std::map<std::size_t, std::size_t> errors;  // seq -> refused values
    std::size_t next_def{};
    explicit world(std::uint64_t s) : r(s) {
        db = kvs::database::open();
        VH_CHECK(kvs::setup_system_storage() == status::ok, "C36.setup", "system storages");
        m = std::make_unique<sq::manager>(*db);
        memkvs::ctl().observe = [this](memkvs::call const& c) {
            if (std::string_view{c.what} != "sequence_put") return;
            std::lock_guard lk{lock};
            auto const& sp = c.value;
            auto at = sp.find(' ');
            puts.push_back({c.storage, std::stoul(c.key), std::stoul(sp.substr(0, at)), std::stoll(sp.substr(at + 1))});
        };
    }
    ~world() { memkvs::ctl().observe = {}; memkvs::ctl().fault = {}; m.reset(); db.reset(); (void) 0; }
    sq::sequence* enroll(kvs::transaction* tx, spec const& s, bool save, bool assign) {
        return m->register_sequence(tx, s.def, s.name, s.init, s.inc, s.min, s.max, s.cycle, save, assign);
    }
};
void check_info(spec const& s, sq::sequence const& q) {
    auto& i = q.info();
    VH_CHECK(i.definition_id() == s.def && i.name() == s.name && i.initial_value() == s.init && i.increment() == s.inc && i.minimum_value() == s.min && i.maximum_value() == s.max && i.cycle() == s.cycle,
        "C36.info", s.text() << " is registered as " << i);
}
// transactions taking values
void worker(world& w, std::vector<std::size_t> const& live, std::uint64_t seed, std::size_t rounds, bool faults) {
    vh::rng r{seed};
    vh::perturb::seed_thread(seed);
    std::map<std::size_t, val> last;
    for (std::size_t k = 0; k < rounds; ++k) {
        auto tx = w.db->create_transaction();
        txlog log;
        log.id = std::string{tx->transaction_id()};
        std::size_t n = r.below(6);
        bool failed = false;
        for (std::size_t j = 0; j < n && ! failed; ++j) {
            auto at = live[r.below(live.size())];
            spec const* sp{};
            { std::lock_guard lk{w.lock}; sp = &w.seqs[at]; }
            auto& s = *sp;
            auto* q = w.m->find_sequence(s.def);
            VH_CHECK(q != nullptr, "C36.lost", s.text() << " is not found");
            auto v = q->next(*tx);
            try {
                w.m->notify_updates(*tx);
            } catch (sq::exception const& e) {
                VH_CHECK(faults, "C36.notify", "notify_updates: " << e.get_status());
                failed = true;
            }
            if (v) {
                auto x = v.value();
                VH_CHECK(s.min <= x && x <= s.max, "C36.range", s.text() << " gives " << x);
                if (auto it = last.find(at); it != last.end() && ! s.cycle) {
                    __int128 d = static_cast<__int128>(x) - it->second;
                    VH_CHECK(s.inc > 0 ? d >= s.inc : d <= s.inc, "C36.order", s.text() << " gives " << x << " after " << it->second << " to one thread");
                }
                last[at] = x;
                log.got.push_back({at, x});
                vh::event("values");
            } else {
                VH_CHECK(! s.cycle, "C36.cycle_error", s.text() << " cycles, and gives " << v.error());
                VH_CHECK(v.error() == (s.inc > 0 ? sq::sequence_error::out_of_upper_bound : sq::sequence_error::out_of_lower_bound), "C36.bound", s.text() << ": " << v.error());
                std::lock_guard lk{w.lock};
                ++w.errors[at];
                vh::event("values refused for a bound");
            }
        }
        if (! failed && r.coin(65)) {
            VH_CHECK(tx->commit() == status::ok, "C36.commit", "commit fails");
            log.committed = true;
        } else {
            VH_CHECK(tx->abort_transaction() == status::ok, "C36.abort", "abort fails");
        }
        vh::beat();
        std::lock_guard lk{w.lock};
        w.logs.push_back(std::move(log));
    }
}
// transactions creating and dropping sequences
void definer(world& w, std::uint64_t seed, std::size_t rounds, bool faults) {
    vh::rng r{seed};
    vh::perturb::seed_thread(seed);
    std::vector<std::size_t> mine;
    for (std::size_t k = 0; k < rounds; ++k) {
        auto tx = w.db->create_transaction();
        if (! mine.empty() && r.coin(35)) {
            auto at = mine.back();
            spec const* s{};
            { std::lock_guard lk{w.lock}; s = &w.seqs[at]; }
            mine.pop_back();
            try {
                VH_CHECK(w.m->remove_sequence(s->def, tx.get()), "C36.remove", s->text() << " is not found to remove");
            } catch (sq::exception const& e) {
                VH_CHECK(faults, "C36.remove", e.get_status());
                std::lock_guard lk{w.lock};
                w.unsure.insert(at);
            }
            // a fault leaves the definition, or not: only the others are of interest
            VH_CHECK(tx->commit() == status::ok || faults, "C36.commit", "commit fails");
            std::lock_guard lk{w.lock};
            w.dropped.insert(at);
            vh::event("sequences dropped");
        } else {
            std::size_t def{};
            { std::lock_guard lk{w.lock}; def = w.next_def++; }
            auto s = make(r, def);
            bool ok = false;
            for (int tries = 0; tries < 8 && ! ok; ++tries) {
                try {
                    auto* q = w.enroll(tx.get(), s, true, true);
                    VH_CHECK(q != nullptr, "C36.create", s.text() << " is not created");
                    check_info(s, *q);
                    ok = true;
                } catch (sq::exception const& e) {
                    VH_CHECK(faults, "C36.create", e.get_status());
                    (void) tx->abort_transaction();
                    tx = w.db->create_transaction();
                    vh::event("definitions failing, and tried again");
                }
            }
            VH_CHECK(tx->commit() == status::ok, "C36.commit", "commit fails");
            std::lock_guard lk{w.lock};
            w.seqs.push_back(s);
            if (! ok) { w.dropped.insert(w.seqs.size() - 1); w.unsure.insert(w.seqs.size() - 1); continue; }
            mine.push_back(w.seqs.size() - 1);
            vh::event("sequences created");
        }
        vh::beat();
    }
}
void judge(world& w) {
    std::map<std::size_t, std::vector<val>> got;
    for (auto& l : w.logs) for (auto& g : l.got) got[g.seq].push_back(g.v);
    std::map<std::size_t, std::map<std::size_t, val>> version_values;   // version -> value, in this life
    for (std::size_t at = 0; at < w.seqs.size(); ++at) {
        auto& s = w.seqs[at];
        auto& g = got[at];
        // the values given are the next ones of the sequence, each once
        std::vector<val> want;
        bool end = s.exhausted;
        s.versions.clear();
        for (std::size_t i = 0; i < g.size(); ++i) {
            auto n = s.step(s.version, s.cur);
            VH_CHECK(n.has_value(), "C36.beyond", s.text() << " gives " << g.size() << " values, although " << s.cur << " is the last of them");
            want.push_back(*n);
            s.cur = *n;
            ++s.version;
            s.versions[s.cur] = s.version;
            version_values[at][s.version] = s.cur;
        }
        auto sorted = g;
        std::sort(sorted.begin(), sorted.end());
        auto expect = want;
        std::sort(expect.begin(), expect.end());
        if (sorted != expect) {
            for (std::size_t i = 0; i < sorted.size(); ++i) VH_CHECK(sorted[i] == expect[i], "C36.values", s.text() << " gives " << sorted[i] << " where " << expect[i] << " follows (" << i << " of " << sorted.size() << ")");
        }
        if (w.errors[at] != 0) {
            VH_CHECK(! s.step(s.version, s.cur).has_value(), "C36.refused", s.text() << " refuses a value, although " << *s.step(s.version, s.cur) << " follows " << s.cur);
            end = true;
        }
        s.exhausted = end;
    }
    // what is stored: each version once, with its value, by a transaction which took a value
    std::map<std::size_t, std::size_t> by_id;
    for (std::size_t at = 0; at < w.seqs.size(); ++at) if (w.seqs[at].id != 0) by_id[w.seqs[at].id] = at;
    std::map<std::string, txlog const*> txs;
    for (auto& l : w.logs) txs[l.id] = &l;
    std::set<std::pair<std::size_t, std::size_t>> seen;
    std::map<std::pair<std::string, std::size_t>, put const*> top;
    for (auto& p : w.puts) {
        auto it = by_id.find(p.id);
        VH_CHECK(it != by_id.end(), "C36.put_unknown", "a value of sequence id " << p.id << " is stored");
        auto at = it->second;
        auto& s = w.seqs[at];
        VH_CHECK(seen.emplace(p.id, p.version).second, "C36.put_twice", s.text() << ": version " << p.version << " is stored twice");
        auto& vv = version_values[at];
        auto v = vv.find(p.version);
        VH_CHECK(v != vv.end() && v->second == p.v, "C36.put_value", s.text() << ": version " << p.version << " is stored with value " << p.v << " where it is of " << (v == vv.end() ? "nothing given" : std::to_string(v->second)));
        auto t = txs.find(p.tx);
        bool took = false;
        if (t != txs.end()) for (auto& g : t->second->got) took = took || g.seq == at;
        VH_CHECK(took, "C36.put_by", s.text() << ": " << p.tx << " stores a version, and took no value of it");
        auto& q = top[{p.tx, at}];
        if (q == nullptr || q->version < p.version) q = &p;
        vh::event("versions stored");
    }
    for (auto& l : w.logs) {
        if (! l.committed) continue;
        std::map<std::size_t, std::vector<val>> mine;
        for (auto& g : l.got) mine[g.seq].push_back(g.v);
        for (auto& [at, g] : mine) {
            auto& s = w.seqs[at];
            auto it = top.find({l.id, at});
            VH_CHECK(it != top.end(), "C36.not_stored", s.text() << ": " << l.id << " took a value and stores none");
            if (! s.cycle) for (auto v : g) VH_CHECK(s.versions[v] <= it->second->version, "C36.stored_before", s.text() << ": " << l.id << " took " << v << " and stores " << it->second->v);
            if (it->second->version > s.stored) { s.stored = it->second->version; s.stored_value = it->second->v; }
        }
    }
    w.logs.clear();
    w.puts.clear();
    w.errors.clear();
}
void restart(world& w) {
    memkvs::ctl().fault = {};
    w.m = std::make_unique<sq::manager>(*w.db);
    auto tx = w.db->create_transaction();
    auto n = w.m->load_id_map(tx.get());
    std::size_t alive = 0;
    for (std::size_t at = 0; at < w.seqs.size(); ++at) {
        auto& s = w.seqs[at];
        if (w.dropped.count(at) != 0) continue;
        ++alive;
        auto* q = w.enroll(tx.get(), s, false, false);
        VH_CHECK(q != nullptr, "C36.forgotten", s.text() << " is not known after a restart");
        check_info(s, *q);
        VH_CHECK(s.id == 0 || s.id == q->info().id(), "C36.other_id", s.text() << " was " << s.id << ", and " << q->info().id() << " after a restart");
        VH_CHECK(q->info().id() != static_cast<std::size_t>(-1), "C36.no_id", s.text() << " is of no sequence of the storage engine");
        s.id = q->info().id();
        if (s.stored == 0) { s.version = 1; s.cur = s.init; }
        else { s.version = s.stored; s.cur = s.stored_value; }
        auto g = q->get();
        VH_CHECK(g.version_ == s.version && g.value_ == s.cur, "C36.resumed", s.text() << " resumes from version " << g.version_ << " value " << g.value_ << " where " << s.version << " " << s.cur << " is stored");
        s.exhausted = false;
    }
    VH_CHECK(n >= alive, "C36.map", n << " definitions are loaded of " << alive);
    std::size_t next{};
    sq::metadata_store{*tx}.find_next_empty_def_id(next);
    for (std::size_t at = 0; at < w.seqs.size(); ++at) if (w.dropped.count(at) == 0) VH_CHECK(next != w.seqs[at].def, "C36.next_def", "definition id " << next << " is said to be free, " << n << " are loaded, " << alive << " alive, size " << sq::metadata_store{*tx}.size());
    VH_CHECK(tx->commit() == status::ok, "C36.commit", "commit fails");
    // definitions it was never told are refused
    auto tx2 = w.db->create_transaction();
    spec u = make(w.r, w.next_def + 1000);
    VH_CHECK(w.enroll(tx2.get(), u, false, false) == nullptr, "C36.unknown", "an unknown definition is taken");
    VH_CHECK(w.m->find_sequence(u.def) == nullptr, "C36.unknown", "an unknown definition is found");
    VH_CHECK(! w.m->remove_sequence(u.def, tx2.get()), "C36.unknown", "an unknown definition is removed");
    VH_CHECK(tx2->abort_transaction() == status::ok, "C36.abort", "abort fails");
    vh::event("restarts");
}
void ids(world& w) {
    for (std::size_t at = 0; at < w.seqs.size(); ++at) {
        if (w.dropped.count(at) != 0) { if (w.unsure.count(at) == 0) VH_CHECK(w.m->find_sequence(w.seqs[at].def) == nullptr, "C36.dropped", w.seqs[at].text() << " is dropped, and found"); continue; }
        auto* q = w.m->find_sequence(w.seqs[at].def);
        VH_CHECK(q != nullptr, "C36.lost", w.seqs[at].text() << " is not found");
        VH_CHECK(q->info().id() != static_cast<std::size_t>(-1), "C36.no_id", w.seqs[at].text() << " is of no sequence of the storage engine");
        if (w.seqs[at].id == 0) w.seqs[at].id = q->info().id();
    }
}
void one(std::uint64_t seed) {
    world w{seed};
    auto& r = w.r;
    auto n = 1 + r.below(5);
    {
        auto tx = w.db->create_transaction();
        for (std::size_t i = 0; i < n; ++i) {
            auto s = make(r, w.next_def++);
            auto* q = w.enroll(tx.get(), s, r.coin() || i + 1 == n, true);
            VH_CHECK(q != nullptr, "C36.create", s.text());
            check_info(s, *q);
            w.seqs.push_back(s);
        }
        VH_CHECK(tx->commit() == status::ok, "C36.commit", "commit fails");
    }
    bool faults = r.coin(25);
    std::string sig;
    auto epochs = 1 + r.below(4);
    for (std::size_t e = 0; e < epochs; ++e) {
        ids(w);
        std::vector<std::size_t> live;
        for (std::size_t at = 0; at < w.seqs.size(); ++at) if (w.dropped.count(at) == 0) live.push_back(at);
        auto fs = vh::mix(seed + e);
        std::atomic<std::uint64_t> calls{0};
        if (faults) memkvs::ctl().fault = [fs, &calls](char const* what) {
            std::string_view s{what};
            if (s.substr(0, 9) != "sequence_") return sharksfin::StatusCode::OK;
            return vh::mix(fs + calls.fetch_add(1)) % 9 == 0 ? sharksfin::StatusCode::ERR_IO_ERROR : sharksfin::StatusCode::OK;
        };
        auto T = 1 + r.below(4), D = r.below(3);
        if (live.empty()) T = 0;
        vh::perturb::level() = static_cast<int>(r.below(3) * 15);
        std::vector<std::thread> ts;
        std::atomic<bool> bad{false};
        auto rounds = 1 + r.below(12);
        for (std::size_t t = 0; t < T + D; ++t) {
            auto s = r.next();
            ts.emplace_back([&, s, t] {
                try { if (t < T) worker(w, live, s, rounds, faults); else definer(w, s, 1 + rounds / 2, faults); } catch (vh::failure const&) { bad = true; }
            });
        }
        for (auto& t : ts) t.join();
        vh::perturb::level() = 0;
        memkvs::ctl().fault = {};
        if (bad) throw vh::failure{};
        ids(w);
        judge(w);
        if (e + 1 < epochs || r.coin()) restart(w);
        sig += std::to_string(T) + "." + std::to_string(D) + ",";
        vh::event("epochs");
    }
    for (auto& s : w.seqs) { vh::nontrivial(vh::hash(s.text() + sig)); vh::sample(s.text() + " version " + std::to_string(s.version) + " " + std::to_string(s.cur)); }
    vh::done();
}
void body() {
    auto n = vh::scale(2500, 45000);
    if (std::getenv("VH_TSAN") != nullptr) n = vh::scale(250, 6000);
    for (std::size_t i = 0; i < n; ++i) {
        auto s = vh::mix(vh::seed() * 7919 + i);
        vh::phase("case " + std::to_string(i));
        vh::guarded("C36.exception", [&] { one(s); });
    }
    VH_EXPECT(memkvs::ctl().open_txs == 0 && memkvs::ctl().open_storages == 0 && memkvs::ctl().open_iters == 0, "C36.leak", "handles left open: " << memkvs::ctl().open_txs << " " << memkvs::ctl().open_storages << " " << memkvs::ctl().open_iters);
}
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    for (int i = 1; i < argc; ++i) if (std::string_view{argv[i]} == "tsan") setenv("VH_TSAN", "1", 1);
    return vh::main(argc, argv, "c36_sequence", "distinct (sequence definition, threads per epoch) used", body);
}
