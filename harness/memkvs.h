// An in-memory stand-in for the transaction engine: sharksfin's functions over ordered maps.
// Transactions keep their writes to themselves until commit.  Memory handed out by a read is
// freed when the interface no longer promises it, so a stale use is seen by the sanitizer.
#pragma once
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <vector>
#include <sharksfin/api.h>
#include <sharksfin/TransactionOptions.h>

namespace memkvs {
using sharksfin::StatusCode;
struct store {
    std::map<std::string, std::string> rows;
    std::map<std::string, std::vector<sharksfin::blob_id_type>> blobs;
    sharksfin::StorageOptions options{};
};
struct call { char const* what; std::string storage, key, value; std::vector<std::uint64_t> blobs; sharksfin::PutOperation op{}; };
struct seqval { std::size_t version{}; std::int64_t value{}; };
// what a run can look at or steer
struct control {
    std::function<StatusCode(char const*)> fault;   // a status to return in place of doing the operation
    std::function<void(call const&)> observe;
    std::atomic<std::int64_t> open_txs{}, open_iters{}, open_storages{}, open_strands{};
    std::function<void(std::function<void()>)> later;   // takes the rest of a commit, to do it in a thread of its own
    std::function<void(char const*)> hold;      // called while an operation is under way
    std::function<void(std::string const&)> misuse;     // told when operations of a transaction overlap, or follow its end
    std::atomic<int> waiting_start{};           // how many times a transaction is said not to have started yet
    std::atomic<bool> delay_durability{};       // durable markers are told by the harness
    std::size_t commits{}, aborts{};
};
inline control& ctl() { static control c; return c; }
inline StatusCode fault(char const* what) { return ctl().fault ? ctl().fault(what) : StatusCode::OK; }
}
namespace memkvs {
inline void misused(std::string const& m) { if (ctl().misuse) ctl().misuse(m); }
}
namespace sharksfin {
struct DatabaseStub {
    std::recursive_mutex m;
    std::map<std::string, std::shared_ptr<memkvs::store>> stores;
    std::map<std::size_t, memkvs::seqval> seqs;
    std::size_t next_seq{1}, next_tx{1};
    std::uint64_t next_storage{100};
    std::vector<durability_callback_type> durability;
    std::uint64_t marker{1};
    void* datastore{};
};
struct StorageStub { DatabaseStub* db{}; std::string name; std::shared_ptr<memkvs::store> s; };
struct TransactionStub { TransactionControlStub* c{}; std::unique_ptr<std::string> last; std::atomic<int> inside{}; bool strand{}; };
struct TransactionControlStub {
    DatabaseStub* db{};
    std::string id;
    struct entry { std::optional<std::string> value; std::vector<blob_id_type> blobs; };
    std::map<memkvs::store*, std::map<std::string, entry>> writes;
    std::map<std::size_t, memkvs::seqval> seqs;
    std::vector<std::shared_ptr<memkvs::store>> keep;
    std::unique_ptr<TransactionStub> borrowed;
    bool active{true}, read_only{};
    // each handle (the borrowed one, and those acquired for strands) serves one thread at a time, and the end of the transaction excludes them all
    std::atomic<int> inside{}, strands{};
    std::atomic<char const*> doing{};
    std::atomic<bool> committing{};
    int ended{};        // 0, 1 committed, 2 aborted, 3 refused to commit
};
struct IteratorStub {
    std::vector<std::pair<std::string, std::string>> rows;
    std::size_t pos{};
    bool started{};
    std::unique_ptr<std::string> k, v;
    TransactionStub* tx{};
};
// an operation under way
class using_tx {
public:
    using_tx(TransactionStub* t, char const* what) : c_(t->c), t_(t), strand_(t->strand) { enter(what); }
    using_tx(TransactionControlStub* c, char const* what) : c_(c) { enter(what); }
    ~using_tx() { leave(); }
    using_tx(using_tx const&) = delete;
    void leave() {
        if (! c_) return;
        if (strand_) { t_->inside.fetch_sub(1, std::memory_order_relaxed); c_->strands.fetch_sub(1, std::memory_order_relaxed); }
        else c_->inside.fetch_sub(1, std::memory_order_relaxed);
        c_ = nullptr;
    }
private:
    TransactionControlStub* c_{};
    TransactionStub* t_{};
    bool strand_{};
    void enter(char const* what) {
        int a{}, b{};
        if (strand_) {
            a = t_->inside.fetch_add(1, std::memory_order_relaxed);
            c_->strands.fetch_add(1, std::memory_order_relaxed);
        } else {
            a = c_->inside.fetch_add(1, std::memory_order_relaxed);
            if (! t_) b = c_->strands.load(std::memory_order_relaxed);
        }
        auto* other = c_->doing.load(std::memory_order_relaxed);
        if ((a != 0 || b != 0) && memkvs::ctl().misuse) memkvs::misused(c_->id + ": " + what + (strand_ ? " by a strand" : "") + " while " + (other ? other : "another operation") + " is under way");
        c_->doing.store(what, std::memory_order_relaxed);
        if (memkvs::ctl().hold) memkvs::ctl().hold(what);
    }
};
inline StatusCode database_open_impl(DatabaseHandle* r) { *r = new DatabaseStub{}; return StatusCode::OK; }
StatusCode database_open(DatabaseOptions const&, Slice const*, DatabaseHandle* r) {
    if (auto f = memkvs::fault("database_open"); f != StatusCode::OK) return f;
    return database_open_impl(r);
}
StatusCode database_close(DatabaseHandle) { return StatusCode::OK; }
StatusCode database_dispose(DatabaseHandle h) { delete h; return StatusCode::OK; }
// the engine tells the current marker on registration, and every time transactions got durable
StatusCode database_register_durability_callback(DatabaseHandle h, durability_callback_type cb) {
    std::uint64_t m{};
    { std::unique_lock lk{h->m}; h->durability.push_back(cb); m = h->marker; }
    cb(m);
    return StatusCode::OK;
}
StatusCode implementation_id(Slice* n) { *n = Slice("memkvs"); return StatusCode::OK; }
StatusCode implementation_get_datastore(DatabaseHandle h, std::any* out) {
    if (!h || !h->datastore) return StatusCode::ERR_UNSUPPORTED;
    *out = h->datastore;
    return StatusCode::OK;
}
StatusCode storage_create(DatabaseHandle h, Slice key, StorageOptions const& o, StorageHandle* r) {
    if (auto f = memkvs::fault("storage_create"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    auto& p = h->stores[key.to_string()];
    if (p) return StatusCode::ALREADY_EXISTS;
    p = std::make_shared<memkvs::store>();
    p->options = o;
    if (o.storage_id() == StorageOptions::undefined) p->options.storage_id(h->next_storage++);
    ++memkvs::ctl().open_storages;
    *r = new StorageStub{h, key.to_string(), p};
    return StatusCode::OK;
}
StatusCode storage_get(DatabaseHandle h, Slice key, StorageHandle* r) {
    if (auto f = memkvs::fault("storage_get"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    auto it = h->stores.find(key.to_string());
    if (it == h->stores.end()) return StatusCode::NOT_FOUND;
    ++memkvs::ctl().open_storages;
    *r = new StorageStub{h, it->first, it->second};
    return StatusCode::OK;
}
StatusCode storage_list(DatabaseHandle h, std::vector<std::string>& out) {
    if (auto f = memkvs::fault("storage_list"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    out.clear();
    for (auto& e : h->stores) out.push_back(e.first);
    return StatusCode::OK;
}
StatusCode storage_get_options(StorageHandle h, StorageOptions& o) { o = h->s->options; return StatusCode::OK; }
StatusCode storage_set_options(StorageHandle h, StorageOptions const& o) {
    auto id = h->s->options.storage_id();
    h->s->options = o;
    h->s->options.storage_id(id);
    return StatusCode::OK;
}
StatusCode storage_delete(StorageHandle h) {
    if (auto f = memkvs::fault("storage_delete"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->db->m};
    return h->db->stores.erase(h->name) != 0 ? StatusCode::OK : StatusCode::NOT_FOUND;
}
StatusCode storage_dispose(StorageHandle h) { if (h) { --memkvs::ctl().open_storages; delete h; } return StatusCode::OK; }
StatusCode transaction_begin(DatabaseHandle h, TransactionOptions const& o, TransactionControlHandle* r) {
    if (auto f = memkvs::fault("transaction_begin"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    auto p = std::make_unique<TransactionControlStub>();
    p->db = h;
    p->id = "TID-" + std::to_string(h->next_tx++);
    p->read_only = o.transaction_type() == TransactionOptions::TransactionType::READ_ONLY;
    ++memkvs::ctl().open_txs;
    *r = p.release();
    return StatusCode::OK;
}
StatusCode transaction_get_info(TransactionControlHandle h, std::shared_ptr<TransactionInfo>& r) { r = std::make_shared<TransactionInfo>(h->id); return StatusCode::OK; }
StatusCode transaction_borrow_owner(TransactionHandle h, DatabaseHandle* r) { *r = h->c->db; return StatusCode::OK; }
StatusCode transaction_borrow_handle(TransactionControlHandle h, TransactionHandle* r) {
    std::unique_lock lk{h->db->m};
    if (!h->borrowed) { h->borrowed = std::make_unique<TransactionStub>(); h->borrowed->c = h; }
    *r = h->borrowed.get();
    return StatusCode::OK;
}
StatusCode transaction_acquire_handle(TransactionControlHandle h, TransactionHandle* r) {
    if (auto f = memkvs::fault("transaction_acquire_handle"); f != StatusCode::OK) return f;
    ++memkvs::ctl().open_strands;
    auto* t = new TransactionStub{};
    t->c = h;
    t->strand = true;
    *r = t;
    return StatusCode::OK;
}
StatusCode transaction_release_handle(TransactionHandle h) { --memkvs::ctl().open_strands; delete h; return StatusCode::OK; }
inline void memkvs_commit(TransactionControlHandle h, commit_callback_type const& cb) {
    using_tx in{h, "commit"};
    if (auto f = memkvs::fault("transaction_commit"); f != StatusCode::OK) {
        { std::unique_lock lk{h->db->m}; h->active = false; h->ended = 3; h->writes.clear(); }
        h->committing.store(false, std::memory_order_relaxed);
        in.leave();
        cb(f, ErrorCode::ERROR, 0);
        return;
    }
    {
        std::unique_lock lk{h->db->m};
        if (!h->active) {
            lk.unlock();
            h->committing.store(false, std::memory_order_relaxed);
            in.leave();
            cb(StatusCode::ERR_INACTIVE_TRANSACTION, ErrorCode::ERROR, 0);
            return;
        }
        for (auto& [s, m] : h->writes) for (auto& [k, e] : m) {
            if (e.value) { s->rows[k] = *e.value; s->blobs[k] = e.blobs; } else { s->rows.erase(k); s->blobs.erase(k); }
        }
        for (auto& [id, v] : h->seqs) { auto it = h->db->seqs.find(id); if (it != h->db->seqs.end() && it->second.version < v.version) it->second = v; }
        h->active = false;
        h->ended = 1;
        ++memkvs::ctl().commits;
    }
    std::uint64_t marker{};
    std::vector<durability_callback_type> durability;
    auto* db = h->db;
    {
        std::unique_lock lk{db->m};
        marker = ++db->marker;
        if (! memkvs::ctl().delay_durability) durability = db->durability;
    }
    h->committing.store(false, std::memory_order_relaxed);
    in.leave();
    cb(StatusCode::OK, ErrorCode::OK, marker);
    for (auto& d : durability) d(marker);
}
bool transaction_commit_with_callback(TransactionControlHandle h, commit_callback_type cb) {
    if (h->committing.exchange(true, std::memory_order_relaxed)) memkvs::misused(h->id + ": commit while a commit is under way");
    if (memkvs::ctl().later) {
        auto p = std::make_shared<commit_callback_type>(std::move(cb));
        memkvs::ctl().later([h, p]() mutable { memkvs_commit(h, *p); });
        return false;
    }
    memkvs_commit(h, cb);
    return true;
}
StatusCode transaction_abort(TransactionControlHandle h, bool) {
    using_tx in{h, "abort"};
    if (h->committing.load(std::memory_order_relaxed)) memkvs::misused(h->id + ": abort while a commit is under way");
    if (auto f = memkvs::fault("transaction_abort"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->db->m};
    if (h->ended == 1) memkvs::misused(h->id + ": abort of a committed transaction");
    h->active = false;
    if (h->ended == 0) h->ended = 2;
    h->writes.clear();
    ++memkvs::ctl().aborts;
    return StatusCode::OK;
}
StatusCode transaction_check(TransactionControlHandle h, TransactionState& r) {
    if (memkvs::ctl().waiting_start.load() > 0 && memkvs::ctl().waiting_start.fetch_sub(1) > 0) { r = TransactionState{TransactionState::StateKind::WAITING_START}; return StatusCode::OK; }
    r = TransactionState{h->active ? TransactionState::StateKind::STARTED : TransactionState::StateKind::DURABLE};
    return StatusCode::OK;
}
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle) { return {}; }
StatusCode transaction_dispose(TransactionControlHandle h) {
    if (h && (h->committing.load(std::memory_order_relaxed) || h->inside.load(std::memory_order_relaxed) != 0 || h->strands.load(std::memory_order_relaxed) != 0)) memkvs::misused(h->id + ": disposed while an operation is under way");
    if (h) { --memkvs::ctl().open_txs; delete h; }
    return StatusCode::OK;
}
namespace memkvs_impl {
inline std::optional<std::string> find(TransactionControlStub* t, memkvs::store* s, std::string const& k) {
    if (auto a = t->writes.find(s); a != t->writes.end())
        if (auto b = a->second.find(k); b != a->second.end()) return b->second.value;
    auto it = s->rows.find(k);
    if (it == s->rows.end()) return {};
    return it->second;
}
}
// the engine ends a transaction it refuses to serialize
inline StatusCode memkvs_fault_in(TransactionHandle tx, char const* what) {
    auto f = memkvs::fault(what);
    if (f == StatusCode::ERR_ABORTED_RETRYABLE || f == StatusCode::ERR_ABORTED || f == StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE) {
        std::unique_lock lk{tx->c->db->m};
        tx->c->active = false;
        tx->c->writes.clear();
    }
    return f;
}
StatusCode content_get(TransactionHandle tx, StorageHandle st, Slice key, Slice* r) {
    using_tx in{tx, "content_get"};
    if (auto f = memkvs_fault_in(tx, "content_get"); f != StatusCode::OK) return f;
    std::unique_lock lk{tx->c->db->m};
    if (!tx->c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    auto v = memkvs_impl::find(tx->c, st->s.get(), key.to_string());
    if (memkvs::ctl().observe) memkvs::ctl().observe({"get", st->name, key.to_string(), v.value_or(""), {}, {}});
    if (!v) return StatusCode::NOT_FOUND;
    tx->last = std::make_unique<std::string>(*v);
    tx->last->shrink_to_fit();
    *r = Slice(*tx->last);
    return StatusCode::OK;
}
StatusCode content_check_exist(TransactionHandle tx, StorageHandle st, Slice key) {
    using_tx in{tx, "content_check_exist"};
    std::unique_lock lk{tx->c->db->m};
    if (!tx->c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    return memkvs_impl::find(tx->c, st->s.get(), key.to_string()) ? StatusCode::OK : StatusCode::NOT_FOUND;
}
StatusCode content_put_with_blobs(TransactionHandle tx, StorageHandle st, Slice key, Slice value, blob_id_type const* blobs, std::size_t n, PutOperation op) {
    using_tx in{tx, "content_put"};
    if (auto f = memkvs_fault_in(tx, "content_put"); f != StatusCode::OK) return f;
    std::unique_lock lk{tx->c->db->m};
    if (!tx->c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    if (tx->c->read_only) return StatusCode::ERR_ILLEGAL_OPERATION;
    auto k = key.to_string();
    bool has = memkvs_impl::find(tx->c, st->s.get(), k).has_value();
    std::vector<blob_id_type> ids;
    if (n != 0) ids.assign(blobs, blobs + n);
    if (memkvs::ctl().observe) memkvs::ctl().observe({"put", st->name, k, value.to_string(), ids, op});
    if (op == PutOperation::CREATE && has) return StatusCode::ALREADY_EXISTS;
    if (op == PutOperation::UPDATE && !has) return StatusCode::NOT_FOUND;
    tx->c->writes[st->s.get()][k] = {value.to_string(), ids};
    tx->c->keep.push_back(st->s);
    return StatusCode::OK;
}
StatusCode content_put(TransactionHandle tx, StorageHandle st, Slice key, Slice value, PutOperation op) { return content_put_with_blobs(tx, st, key, value, nullptr, 0, op); }
StatusCode content_delete(TransactionHandle tx, StorageHandle st, Slice key) {
    using_tx in{tx, "content_delete"};
    if (auto f = memkvs_fault_in(tx, "content_delete"); f != StatusCode::OK) return f;
    std::unique_lock lk{tx->c->db->m};
    if (!tx->c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    if (tx->c->read_only) return StatusCode::ERR_ILLEGAL_OPERATION;
    auto k = key.to_string();
    if (memkvs::ctl().observe) memkvs::ctl().observe({"delete", st->name, k, {}, {}, {}});
    bool has = memkvs_impl::find(tx->c, st->s.get(), k).has_value();
    if (!has) return StatusCode::NOT_FOUND;
    tx->c->writes[st->s.get()][k] = {};
    tx->c->keep.push_back(st->s);
    return StatusCode::OK;
}
StatusCode content_scan(TransactionHandle tx, StorageHandle st, Slice b, EndPointKind bk, Slice e, EndPointKind ekd, IteratorHandle* r, std::size_t limit, bool reverse) {
    using_tx in{tx, "content_scan"};
    if (auto f = memkvs_fault_in(tx, "content_scan"); f != StatusCode::OK) return f;
    std::unique_lock lk{tx->c->db->m};
    if (!tx->c->active) return StatusCode::ERR_INACTIVE_TRANSACTION;
    auto p = std::make_unique<IteratorStub>();
    auto bs = b.to_string(), es = e.to_string();
    auto after_begin = [&](std::string const& k) {
        switch (bk) {
            case EndPointKind::UNBOUND: return true;
            case EndPointKind::INCLUSIVE: case EndPointKind::PREFIXED_INCLUSIVE: return k >= bs;
            case EndPointKind::EXCLUSIVE: return k > bs;
            case EndPointKind::PREFIXED_EXCLUSIVE: return k > bs && k.compare(0, bs.size(), bs) != 0;
        }
        return false;
    };
    auto before_end = [&](std::string const& k) {
        switch (ekd) {
            case EndPointKind::UNBOUND: return true;
            case EndPointKind::INCLUSIVE: return k <= es;
            case EndPointKind::PREFIXED_INCLUSIVE: return k <= es || k.compare(0, es.size(), es) == 0;
            case EndPointKind::EXCLUSIVE: case EndPointKind::PREFIXED_EXCLUSIVE: return k < es;
        }
        return false;
    };
    std::map<std::string, std::string> all = st->s->rows;
    for (auto& [k, w] : tx->c->writes[st->s.get()]) { if (w.value) all[k] = *w.value; else all.erase(k); }
    for (auto& [k, v] : all) if (after_begin(k) && before_end(k)) p->rows.emplace_back(k, v);
    if (reverse) std::reverse(p->rows.begin(), p->rows.end());
    if (limit != 0 && p->rows.size() > limit) p->rows.resize(limit);
    if (memkvs::ctl().observe) memkvs::ctl().observe({"scan", st->name, bs, es, {static_cast<std::uint64_t>(bk), static_cast<std::uint64_t>(ekd), limit, reverse ? 1U : 0U}, {}});
    ++memkvs::ctl().open_iters;
    p->tx = tx;
    *r = p.release();
    return StatusCode::OK;
}
StatusCode iterator_next(IteratorHandle h) {
    using_tx in{h->tx, "iterator_next"};
    h->k.reset(); h->v.reset();
    if (auto f = memkvs::fault("iterator_next"); f != StatusCode::OK) return f;
    if (h->started && h->pos < h->rows.size()) ++h->pos;
    h->started = true;
    if (h->pos >= h->rows.size()) return StatusCode::NOT_FOUND;
    return StatusCode::OK;
}
StatusCode iterator_get_key(IteratorHandle h, Slice* r) {
    using_tx in{h->tx, "iterator_get_key"};
    if (auto f = memkvs::fault("iterator_get_key"); f != StatusCode::OK) return f;
    if (!h->started || h->pos >= h->rows.size()) return StatusCode::ERR_INVALID_STATE;
    h->k = std::make_unique<std::string>(h->rows[h->pos].first);
    h->k->shrink_to_fit();
    *r = Slice(*h->k);
    return StatusCode::OK;
}
StatusCode iterator_get_value(IteratorHandle h, Slice* r) {
    using_tx in{h->tx, "iterator_get_value"};
    if (auto f = memkvs::fault("iterator_get_value"); f != StatusCode::OK) return f;
    if (!h->started || h->pos >= h->rows.size()) return StatusCode::ERR_INVALID_STATE;
    h->v = std::make_unique<std::string>(h->rows[h->pos].second);
    h->v->shrink_to_fit();
    *r = Slice(*h->v);
    return StatusCode::OK;
}
StatusCode iterator_dispose(IteratorHandle h) { if (h) { --memkvs::ctl().open_iters; delete h; } return StatusCode::OK; }
StatusCode sequence_create(DatabaseHandle h, SequenceId* id) {
    if (auto f = memkvs::fault("sequence_create"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    *id = h->next_seq++;
    h->seqs[*id] = {};
    return StatusCode::OK;
}
StatusCode sequence_put(TransactionHandle tx, SequenceId id, SequenceVersion version, SequenceValue value) {
    using_tx in{tx, "sequence_put"};
    if (auto f = memkvs::fault("sequence_put"); f != StatusCode::OK) return f;
    std::unique_lock lk{tx->c->db->m};
    if (tx->c->db->seqs.find(id) == tx->c->db->seqs.end()) return StatusCode::NOT_FOUND;
    auto& s = tx->c->seqs[id];
    if (s.version < version || version == 0) s = {version, value};
    if (memkvs::ctl().observe) memkvs::ctl().observe({"sequence_put", tx->c->id, std::to_string(id), std::to_string(version) + " " + std::to_string(value), {}, {}});
    return StatusCode::OK;
}
StatusCode sequence_get(DatabaseHandle h, SequenceId id, SequenceVersion* version, SequenceValue* value) {
    if (auto f = memkvs::fault("sequence_get"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    auto it = h->seqs.find(id);
    if (it == h->seqs.end()) return StatusCode::NOT_FOUND;
    *version = it->second.version;
    *value = it->second.value;
    return StatusCode::OK;
}
StatusCode sequence_delete(DatabaseHandle h, SequenceId id) {
    if (auto f = memkvs::fault("sequence_delete"); f != StatusCode::OK) return f;
    std::unique_lock lk{h->m};
    return h->seqs.erase(id) != 0 ? StatusCode::OK : StatusCode::NOT_FOUND;
}
}
