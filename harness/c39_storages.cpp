// The registry of storages: names, keys, locks, references, deletions and privileges against a model, and under
// concurrent transactions which read, define, drop and delete storages.
#define VH_PERTURB_IMPL
#include "perturb.h"
#include "db.h"
#include <shared_mutex>
#include <glog/logging.h>
#include <jogasaki/auth/action_set.h>
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/storage/reference_scope.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
using namespace jogasaki;
namespace st = jogasaki::storage;
using entry = st::storage_entry;
using ak = auth::action_kind;
static bool tsan = false;

// ---- one thread against a model
namespace {
struct m_entry {
    std::optional<std::string> name, key;
    std::string original, derived;
    bool primary{}, reserved{};
    std::optional<entry> owner{};
    long readers{}, refs{};
    int writer{-1};
    std::map<std::string, std::set<ak>> users;
    std::set<ak> everyone;
};
struct m_unique { std::shared_ptr<st::unique_lock> l; std::set<entry> held; int id; std::set<entry> gone{}; void removed(entry e) { if (held.erase(e)) gone.insert(e); } };
struct m_shared { std::unique_ptr<st::shared_lock> l; std::set<entry> held; };
struct m_scope { std::unique_ptr<st::reference_scope> s; std::set<entry> held; };
std::set<ak> plus(std::set<ak> s, ak a) { if (s.count(ak::control)) return s; if (a == ak::control) return {a}; s.insert(a); return s; }
std::set<ak> minus(std::set<ak> s, ak a) { if (a == ak::control) return {}; s.erase(a); return s; }
bool allows(std::set<ak> const& s, ak a) { return s.count(a) || s.count(ak::control); }
std::set<ak> of(auth::action_set const& s) { std::set<ak> r; for (auto a : s) r.insert(a); return r; }

struct history {
    vh::rng r;
    st::storage_manager m{};
    std::map<entry, m_entry> es;
    std::vector<m_unique> us;
    std::vector<m_shared> ss;
    std::vector<m_scope> rs;
    entry next{1};
    int locks{};
    std::uint64_t h{};
    explicit history(std::uint64_t seed) : r(seed) {}
    entry any() { if (es.empty() || r.coin(4)) return 1 + r.below(next + 2); auto it = es.begin(); std::advance(it, static_cast<long>(r.below(es.size()))); return it->first; }
    std::vector<entry> some(std::size_t n) { std::set<entry> s; for (std::size_t i = 0; i < n; ++i) s.insert(any()); std::vector<entry> v{s.begin(), s.end()}; for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); return v; }
    static std::string text(std::vector<entry> const& v) { std::string s; for (auto e : v) s += std::to_string(e) + " "; return s; }
    m_entry* find(entry e) { auto it = es.find(e); return it == es.end() ? nullptr : &it->second; }
    std::string free_name() { for (;;) { auto n = "t" + std::to_string(r.below(12)); return n; } }
    void add() {
        auto id = r.coin(8) && ! es.empty() ? std::next(es.begin(), static_cast<long>(r.below(es.size())))->first : next;
        std::optional<std::string> name{}, key{}, orig{};
        auto style = r.below(10);
        if (style < 7) { name = free_name(); key = "k" + std::to_string(r.next() % 100000) + "_" + std::to_string(id); if (r.coin()) orig = name; }
        else if (style < 9) { name = "old" + std::to_string(id) + std::string(r.below(2), 'x'); }
        else { orig = "was" + std::to_string(r.below(5)); key = "d" + std::to_string(id); }
        bool primary = r.coin(60);
        std::optional<entry> own{};
        if (! primary && r.coin(70)) own = any();
        auto* u = us.empty() || r.coin(50) ? nullptr : &us[r.below(us.size())];
        bool taken = false;
        if (name) for (auto& [i, e] : es) taken = taken || (e.name && *e.name == *name);
        auto want = ! es.count(id) && ! taken;
        auto got = m.add_entry(id, name, key ? std::optional<std::string_view>{*key} : std::nullopt, primary, own, orig ? std::optional<std::string_view>{*orig} : std::nullopt, u ? u->l.get() : nullptr);
        VH_CHECK(got == want, "storages.add", "adding entry " << id << " named " << name.value_or("-") << (got ? " succeeds" : " fails") << (taken ? ", the name is taken" : ""));
        if (id == next) ++next;
        if (! got) { vh::event("refused"); return; }
        m_entry e;
        e.name = name; e.key = key; e.original = orig ? *orig : *name; e.derived = key ? *key : name ? *name : e.original; e.primary = primary; e.owner = own; e.reserved = ! name;
        if (u) { e.writer = u->id; u->held.insert(id); }
        es[id] = e;
        vh::event("added");
    }
    void reserve() {
        auto id = any();
        auto* e = find(id);
        if (e && ! e->name) return;
        auto got = m.reserve_delete_entry(id);
        VH_CHECK(got == (e != nullptr), "storages.reserve", "reserving the deletion of " << id << " gives " << got);
        if (! e) return;
        if (! e->key) e->key = e->name;
        e->name.reset(); e->reserved = true;
        vh::event("reserved");
    }
    void remove() {
        auto id = any();
        auto* e = find(id);
        auto got = m.remove_entry(id);
        VH_CHECK(got == (e != nullptr), "storages.remove", "removing " << id << " gives " << got);
        if (! e) return;
        es.erase(id);
        for (auto& u : us) u.removed(id);
        for (auto& s : ss) s.held.erase(id);
        for (auto& s : rs) s.held.erase(id);
        vh::event("removed");
    }
    void lock() {
        if (us.size() < 3 && (us.empty() || r.coin(30))) { us.push_back({std::shared_ptr<st::unique_lock>{m.create_unique_lock()}, {}, locks++}); VH_CHECK(us.back().l->storage().size() == 0, "storages.lock", "a new lock holds something"); }
        auto& u = us[r.below(us.size())];
        auto v = some(1 + r.below(3));
        bool want = true;
        for (auto i : v) { if (u.held.count(i) || u.gone.count(i)) continue; auto* e = find(i); want = want && e && e->writer < 0 && e->readers == 0 && ! e->reserved; }
        auto got = m.add_locked_storages(st::storage_list{v}, *u.l);
        VH_CHECK(got == want, "storages.lock", "locking " << text(v) << "exclusively gives " << got);
        if (got) { for (auto i : v) if (! u.gone.count(i)) { u.held.insert(i); find(i)->writer = u.id; } vh::event("locked"); } else vh::event("lock_refused");
    }
    void share() {
        auto* u = us.empty() || r.coin() ? nullptr : &us[r.below(us.size())];
        auto v = some(r.below(4));
        bool want = true;
        std::set<entry> held;
        for (auto i : v) { if (u && (u->held.count(i) || u->gone.count(i))) continue; auto* e = find(i); want = want && e && e->writer < 0 && ! e->reserved; held.insert(i); }
        auto l = m.create_shared_lock(st::storage_list{v}, u ? u->l.get() : nullptr);
        VH_CHECK((l != nullptr) == want, "storages.share", "locking " << text(v) << "shared gives " << (l != nullptr));
        if (! l) { vh::event("share_refused"); return; }
        std::set<entry> s; for (auto i : l->storage().entity()) s.insert(i);
        VH_CHECK(s == held, "storages.share", "a shared lock of " << text(v) << "holds other storages");
        for (auto i : held) ++find(i)->readers;
        ss.push_back({std::move(l), held});
        vh::event("shared");
    }
    void unlock() {
        if (! ss.empty() && r.coin()) {
            auto k = r.below(ss.size());
            for (auto i : ss[k].held) --find(i)->readers;
            ss.erase(ss.begin() + static_cast<long>(k));
            return;
        }
        if (us.empty()) return;
        auto k = r.below(us.size());
        auto& u = us[k];
        switch (r.below(3)) {
            case 0: for (auto i : u.held) find(i)->writer = -1; us.erase(us.begin() + static_cast<long>(k)); break;
            case 1: { auto i = u.held.empty() || r.coin(20) ? any() : *std::next(u.held.begin(), static_cast<long>(r.below(u.held.size()))); u.l->release_storage(i); u.gone.erase(i); if (u.held.erase(i)) find(i)->writer = -1; break; }
            default: {
                std::vector<entry> v; for (auto i : u.held) if (r.coin()) v.push_back(i);
                m.remove_locked_storages(st::storage_list{v}, *u.l);
                for (auto i : v) { u.held.erase(i); find(i)->writer = -1; }
            }
        }
        vh::event("released");
    }
    void refer() {
        if (rs.size() < 3 && (rs.empty() || r.coin(30))) rs.push_back({std::make_unique<st::reference_scope>(m), {}});
        auto k = r.below(rs.size());
        if (r.coin(20)) { for (auto i : rs[k].held) --find(i)->refs; rs.erase(rs.begin() + static_cast<long>(k)); return; }
        auto i = any();
        rs[k].s->add_storage(i);
        if (auto* e = find(i); e && rs[k].held.insert(i).second) ++e->refs;
        vh::event("referred");
    }
    void grant() {
        auto id = any();
        auto* e = find(id);
        if (! e) return;
        auto c = m.find_entry(id);
        static const std::vector<ak> kinds{ak::control, ak::select, ak::insert, ak::update, ak::delete_};
        auto user = "u" + std::to_string(r.below(4));
        auth::action_set a{};
        std::set<ak> ma;
        for (std::size_t n = r.below(4); n > 0; --n) { auto k = r.pick(kinds); a.add_action(k); ma = plus(ma, k); }
        VH_CHECK(of(a) == ma, "storages.actions", "a set of actions holds others");
        auto drop = [&](std::set<ak> s) { for (auto k : ma) s = minus(s, k); return s; };
        auto add = [&](std::set<ak> s) { for (auto k : ma) s = plus(s, k); return s; };
        auto& us_ = e->users;
        switch (r.below(5)) {
            case 0: case 1: c->authorized_actions().add_user_actions(user, a); if (! ma.empty()) us_[user] = add(us_[user]); break;
            case 2: c->authorized_actions().remove_user_actions(user, a); if (us_.count(user)) { us_[user] = drop(us_[user]); if (us_[user].empty()) us_.erase(user); } break;
            case 3: c->authorized_actions().remove_user_all_actions(user); us_.erase(user); break;
            default: if (r.coin()) { c->public_actions().add_actions(a); e->everyone = add(e->everyone); } else { c->public_actions().remove_actions(a); e->everyone = drop(e->everyone); }
        }
        VH_CHECK(of(c->public_actions()) == e->everyone, "storages.actions", "public actions differ");
        VH_CHECK(c->authorized_actions().user_count() == us_.size(), "storages.actions", c->authorized_actions().user_count() << " users for " << us_.size());
        for (std::size_t k = 0; k < 5; ++k) {
            auto un = "u" + std::to_string(k);
            auto want = us_.count(un) ? us_[un] : std::set<ak>{};
            VH_CHECK(of(c->authorized_actions().find_user_actions(un)) == want, "storages.actions", "actions of " << un << " differ");
            for (std::size_t bits = 0; bits < 32; ++bits) {
                auth::action_set q{};
                bool ok = true;
                for (std::size_t b = 0; b < 5; ++b) if (bits >> b & 1U) q.add_action(kinds[b]);
                for (auto x : of(q)) ok = ok && (allows(want, x) || allows(e->everyone, x));
                VH_CHECK(c->allows_user_actions(un, q) == ok, "storages.allows", un << " with " << c->authorized_actions().find_user_actions(un) << " and public " << c->public_actions() << " asked for " << q);
            }
        }
        vh::event("granted");
    }
    void compare() {
        VH_CHECK(m.size() == es.size(), "storages.size", m.size() << " entries for " << es.size());
        std::map<std::string, entry> names;
        std::set<entry> reserved;
        for (auto& [i, e] : es) {
            auto c = m.find_entry(i);
            VH_CHECK(c, "storages.find", "entry " << i << " is not found");
            auto n = c->name();
            VH_CHECK(n.has_value() == e.name.has_value() && (! n || *n == *e.name), "storages.name", "entry " << i << " is named " << n.value_or("-") << " for " << e.name.value_or("-"));
            VH_CHECK(c->original_name() == e.original, "storages.name", "the original name of " << i << " is " << c->original_name());
            auto k = c->storage_key();
            VH_CHECK(k.has_value() == e.key.has_value() && (! k || *k == *e.key) && c->derived_storage_key() == e.derived, "storages.key", "entry " << i << " has the key " << k.value_or("-"));
            VH_CHECK(c->is_primary() == e.primary && c->primary_entry() == e.owner && c->delete_reserved() == e.reserved, "storages.entry", "the kind, table or deletion of " << i << " differ");
            VH_CHECK(static_cast<long>(c->ref_transaction_count()) == e.refs, "storages.refs", c->ref_transaction_count() << " transactions refer to " << i << " for " << e.refs);
            VH_CHECK(c->can_lock() == (e.writer < 0 && e.readers == 0) && c->can_lock_shared() == (e.writer < 0), "storages.state", "the lock of " << i << " differs: " << e.writer << " writes, " << e.readers << " read");
            if (e.name) names[*e.name] = i;
            if (e.reserved) reserved.insert(i);
            auto by = m.get_index_name(e.derived);
            VH_CHECK(by.has_value() == e.name.has_value() && (! by || *by == *e.name), "storages.by_key", "the key " << e.derived << " of entry " << i << " leads to " << by.value_or("-"));
        }
        for (int i = 0; i < 12; ++i) names.emplace("t" + std::to_string(i), 0);
        for (auto& [n, i] : names) {
            auto f = m.find_by_name(n);
            VH_CHECK(f.has_value() == (i != 0) && (! f || *f == i), "storages.by_name", n << " is entry " << f.value_or(0) << " for " << i);
            auto k = m.get_storage_key(n);
            VH_CHECK(k.has_value() == (i != 0) && (! k || *k == es[i].derived), "storages.by_name", n << " has the key " << k.value_or("-"));
        }
        VH_CHECK(! m.find_entry(next + 5) && ! m.get_index_name("nothing"), "storages.find", "an unknown entry is found");
        auto v = m.get_delete_reserved_entries();
        VH_CHECK((std::set<entry>{v.begin(), v.end()} == reserved && v.size() == reserved.size()), "storages.reserved", "entries to delete: " << text(v));
        for (auto& u : us) {
            auto l = u.l->storage();
            std::set<entry> s{l.begin(), l.end()};
            for (auto i : u.gone) s.erase(i);
            VH_CHECK(s == u.held, "storages.held", "an exclusive lock holds other storages");
        }
    }
    void run(std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            auto x = r.below(100);
            if (x < 20) add(); else if (x < 27) reserve(); else if (x < 31) remove(); else if (x < 48) lock(); else if (x < 64) share();
            else if (x < 80) unlock(); else if (x < 90) refer(); else grant();
            compare();
            h = vh::mix(h ^ (x * 1000 + es.size()));
        }
        ss.clear(); us.clear(); rs.clear();
        for (auto& [i, e] : es) { auto c = m.find_entry(i); VH_CHECK(c->can_lock() && c->ref_transaction_count() == 0, "storages.left", "entry " << i << " is still locked or referred to"); }
        m.clear();
        VH_CHECK(m.size() == 0 && ! m.find_by_name("t0"), "storages.clear", "entries are left");
        vh::nontrivial(h);
    }
};
} // namespace

// ---- concurrent transactions
namespace {
constexpr std::size_t cap = 20000;
struct shadow { std::atomic<int> writer{0}, readers{0}, refs{0}; std::atomic<bool> reserved{false}, removed{false}; };
struct world {
    st::storage_manager m{};
    std::unique_ptr<shadow[]> sh{new shadow[cap]};
    std::atomic<entry> next{1};
    std::size_t names;
    struct tx {
        std::shared_mutex end;  // shared by statements, exclusive at the end of the transaction
        std::mutex ddl;
        std::unique_ptr<transaction_context> c{std::make_unique<transaction_context>()};
        std::unique_ptr<st::reference_scope> refs;
        std::mutex sm; std::set<entry> referred;
        std::set<entry> held;   // under ddl
        int id{};
    };
    std::vector<std::unique_ptr<tx>> txs;
    std::atomic<int> ids{1};
    std::atomic<bool> stop{false};
    std::atomic<std::size_t> removed{0}, added{0};
    std::uint64_t seed;
    world(std::uint64_t s, std::size_t n, std::size_t t) : names(n), seed(s) { for (std::size_t i = 0; i < t; ++i) { txs.push_back(std::make_unique<tx>()); fresh(*txs.back()); } }
    void fresh(tx& t) { t.refs = std::make_unique<st::reference_scope>(m); t.referred.clear(); t.held.clear(); t.id = ids++; }
    std::string name(vh::rng& r) { return "t" + std::to_string(r.below(names)); }
    static void pause(vh::rng& r) { switch (r.below(4)) { case 0: std::this_thread::yield(); break; case 1: for (volatile unsigned i = 0; i < r.below(500) % 500; i = i + 1) {} break; default: break; } }
    void dml(vh::rng& r, tx& t) {
        std::shared_lock in{t.end};
        std::set<entry> s;
        for (auto n = 1 + r.below(3); n > 0; --n) if (auto e = m.find_by_name(name(r))) s.insert(*e);
        auto parent = t.c->storage_lock();
        auto l = m.create_shared_lock(st::storage_list{std::vector<entry>{s.begin(), s.end()}}, parent.get());
        if (! l) { vh::event("concurrent reads refused"); return; }
        std::vector<entry> mine;
        for (auto e : l->storage().entity()) mine.push_back(e);
        VH_EXPECT(mine.size() <= s.size(), "storages.share", "a shared lock holds more than was asked");
        for (auto e : mine) {
            VH_EXPECT(s.count(e), "storages.share", "a shared lock holds another storage");
            ++sh[e].readers;
            VH_EXPECT(sh[e].writer == 0, "storages.exclusive", "seed " << seed << ": entry " << e << " is read while transaction " << sh[e].writer << " defines it");
            VH_EXPECT(! sh[e].reserved, "storages.dropped", "seed " << seed << ": entry " << e << " is locked after it was dropped");
            if (r.coin()) { t.refs->add_storage(e); std::lock_guard g{t.sm}; if (t.referred.insert(e).second) ++sh[e].refs; }
            auto c = m.find_entry(e);
            VH_EXPECT(c && c->name(), "storages.dropped", "seed " << seed << ": entry " << e << " lost its name while it is read");
        }
        pause(r);
        for (auto e : mine) { VH_EXPECT(sh[e].writer == 0, "storages.exclusive", "seed " << seed << ": entry " << e << " is defined while it is read"); --sh[e].readers; }
        l.reset();
        vh::event("concurrent reads");
    }
    // under t.ddl
    void own(tx& t, entry e) {
        int none = 0;
        VH_EXPECT(sh[e].writer.compare_exchange_strong(none, t.id), "storages.exclusive", "seed " << seed << ": entry " << e << " is locked by transactions " << none << " and " << t.id);
        VH_EXPECT(sh[e].readers == 0, "storages.exclusive", "seed " << seed << ": entry " << e << " is locked while " << sh[e].readers << " statements use it");
        t.held.insert(e);
    }
    std::shared_ptr<st::unique_lock> lock_of(tx& t) {
        auto l = t.c->storage_lock();
        if (! l) { l = m.create_unique_lock(); t.c->storage_lock(l); }
        return l;
    }
    void create(vh::rng& r, tx& t, std::string const& n) {
        auto l = lock_of(t);
        auto e = next++;
        if (e >= cap) return;
        sh[e].writer = t.id;
        auto ok = m.add_entry(e, n, "k" + std::to_string(e), true, std::nullopt, std::nullopt, l.get());
        if (! ok) { sh[e].writer = 0; vh::event("concurrent names taken"); return; }
        ++added;
        t.held.insert(e);
        auto f = m.find_by_name(n);
        VH_EXPECT(f && *f == e, "storages.by_name", "seed " << seed << ": " << n << " was just made as " << e << " and is " << f.value_or(0));
        auto k = m.get_storage_key(n);
        VH_EXPECT(k && *k == "k" + std::to_string(e), "storages.by_name", "seed " << seed << ": " << n << " has the key " << k.value_or("-"));
        pause(r);
        vh::event("concurrent creations");
    }
    void ddl(vh::rng& r, tx& t) {
        std::shared_lock in{t.end};
        std::lock_guard g{t.ddl};
        auto n = name(r);
        auto e = m.find_by_name(n);
        if (! e) { create(r, t, n); return; }
        auto l = lock_of(t);
        if (! m.add_locked_storages(st::storage_list{*e}, *l)) { VH_EXPECT(! t.held.count(*e) , "storages.held", "seed " << seed << ": a storage the transaction holds cannot be locked"); vh::event("concurrent locks refused"); return; }
        if (! t.held.count(*e)) {
            own(t, *e);
            VH_EXPECT(! sh[*e].reserved, "storages.dropped", "seed " << seed << ": entry " << *e << " is locked after it was dropped");
        }
        vh::event("concurrent locks");
        if (sh[*e].reserved) return;
        switch (r.below(4)) {
            case 0: case 1: {
                sh[*e].reserved = true;
                VH_EXPECT(m.reserve_delete_entry(*e), "storages.reserve", "seed " << seed << ": entry " << *e << " cannot be dropped");
                auto f = m.find_by_name(n);
                VH_EXPECT(! f || *f != *e, "storages.by_name", "seed " << seed << ": " << n << " still names the dropped entry");
                vh::event("concurrent drops");
                if (r.coin()) create(r, t, n);
                break;
            }
            case 2: sh[*e].writer = 0; t.held.erase(*e); l->release_storage(*e); break;
            default: pause(r);
        }
    }
    void end(tx& t) {
        std::unique_lock out{t.end};
        auto l = t.c->storage_lock();
        if (l) {
            auto v = l->storage();
            std::set<entry> s{v.begin(), v.end()};
            for (auto e : t.held) VH_EXPECT(s.count(e), "storages.held", "seed " << seed << ": the lock of the transaction lost entry " << e);
            VH_EXPECT(s.size() == t.held.size() && v.size() == s.size(), "storages.held", "seed " << seed << ": the transaction holds " << v.size() << " storages for " << t.held.size());
        }
        l.reset();
        for (auto e : t.held) sh[e].writer = 0;
        t.c->storage_lock(nullptr);
        for (auto e : t.referred) --sh[e].refs;
        t.refs.reset();
        fresh(t);
        vh::event("concurrent transactions");
    }
    void maintain() {
        for (auto e : m.get_delete_reserved_entries()) {
            VH_EXPECT(sh[e].reserved, "storages.reserved", "seed " << seed << ": entry " << e << " is to be deleted, but nobody dropped it");
            auto c = m.find_entry(e);
            if (! c) continue;
            if (c->ref_transaction_count() != 0) { vh::event("concurrent deletions put off"); continue; }
            VH_EXPECT(sh[e].refs == 0, "storages.refs", "seed " << seed << ": entry " << e << " has no references, and " << sh[e].refs << " transactions use it");
            VH_EXPECT(m.remove_entry(e), "storages.remove", "seed " << seed << ": entry " << e << " vanished");
            VH_EXPECT(! sh[e].removed.exchange(true), "storages.remove", "seed " << seed << ": entry " << e << " is removed twice");
            ++removed;
        }
    }
    void run(std::size_t threads, std::size_t steps) {
        std::vector<std::thread> th;
        for (std::size_t i = 0; i < threads; ++i) th.emplace_back([&, i] {
            vh::rng r{vh::mix(seed * 31 + i)};
            vh::perturb::seed_thread(r.next());
            for (std::size_t k = 0; k < steps; ++k) {
                auto& t = *txs[r.below(txs.size())];
                auto x = r.below(100);
                if (x < 45) dml(r, t); else if (x < 85) ddl(r, t); else end(t);
            }
        });
        std::thread mt{[&] { while (! stop) { maintain(); std::this_thread::yield(); } }};
        for (auto& t : th) t.join();
        stop = true;
        mt.join();
        for (auto& t : txs) end(*t);
        maintain();
        VH_CHECK(m.get_delete_reserved_entries().empty(), "storages.left", "seed " << seed << ": dropped entries are never deleted");
        std::size_t live = 0;
        for (std::size_t i = 0; i < names; ++i) {
            auto n = "t" + std::to_string(i);
            auto e = m.find_by_name(n);
            if (! e) continue;
            ++live;
            auto c = m.find_entry(*e);
            VH_CHECK(c && c->name() && *c->name() == n, "storages.by_name", "seed " << seed << ": " << n << " leads to no entry of that name");
            VH_CHECK(c->can_lock() && c->ref_transaction_count() == 0, "storages.left", "seed " << seed << ": " << n << " is still locked or referred to");
            auto k = m.get_index_name("k" + std::to_string(*e));
            VH_CHECK(k && *k == n, "storages.by_key", "seed " << seed << ": the key of " << n << " leads to " << k.value_or("-"));
        }
        VH_CHECK(m.size() == live && added - removed == live, "storages.size", "seed " << seed << ": " << m.size() << " entries, " << live << " names, " << added << " added, " << removed << " removed");
        vh::nontrivial(vh::mix(seed ^ added ^ (removed << 20U)));
    }
};
} // namespace
static void body() {
    vh::rng r{vh::seed() * 4099 + (tsan ? 3 : 0)};
    if (! tsan) for (std::size_t i = vh::scale(300, 3000); i > 0; --i) vh::guarded("history", [&] { auto s = r.next(); vh::phase("history " + std::to_string(s)); history{s}.run(150); });
    for (std::size_t i = vh::scale(60, 900); i > 0; --i) vh::guarded("world", [&] {
        auto s = r.next();
        vh::phase("world " + std::to_string(s));
        vh::perturb::level() = static_cast<int>(r.below(4) * 12);
        world{s, 1 + r.below(5), 1 + r.below(4)}.run(2 + r.below(5), tsan ? 250 : 500);
        vh::perturb::level() = 0;
    });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c39_storages", "a history of the registry, or a run of concurrent transactions", body);
}
