// Record and value stores: everything put in is read back once, in order and unchanged.
#include "globals.h"
#include "rec.h"
#include <deque>
#include <glog/logging.h>
#include <jogasaki/api/impl/result_store_channel.h>
#include <jogasaki/data/fifo_record_store.h>
#include <jogasaki/data/iterable_record_store.h>
#include <jogasaki/data/record_store.h>
#include <jogasaki/data/result_store.h>
#include <jogasaki/data/small_record_store.h>
#include <jogasaki/data/value_store.h>
#include <jogasaki/executor/exchange/shuffle/pointer_table.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>

namespace {
using namespace rec;
namespace jd = jogasaki::data;
namespace jmem = jogasaki::memory;
using jogasaki::accessor::record_ref;

bool same(fdesc const& f, val const& a, val const& b) {
    if (a.null != b.null) return false;
    if (a.null) return true;
    if (f.k == kind::decimal) return a.t.exponent() == b.t.exponent() && dec_cmp(a.t, b.t) == 0;
    return compare(f, a, b) == 0;
}
// a set of ready records of one layout
struct stock {
    std::vector<fdesc> f;
    std::shared_ptr<jm::record_meta> meta;
    std::vector<std::vector<val>> v;
    std::vector<record> r;
    heap_resource heap;
    stock(vh::rng& g, std::size_t fields, std::size_t n, std::size_t textlen) {
        for (std::size_t i = 0; i < fields; ++i) {
            f.push_back(rand_desc(g));
            if (f.back().len) f.back().len = 1 + g.below(textlen);
        }
        meta = make_meta(f);
        for (std::size_t k = 0; k < n; ++k) {
            v.emplace_back();
            r.emplace_back(*meta);
            for (std::size_t i = 0; i < fields; ++i) {
                v[k].push_back(rand_val(g, f[i]));
                put(r[k].ref, *meta, i, f[i], v[k][i], &heap);
            }
        }
    }
    std::string differs(record_ref x, std::size_t k) const {
        for (std::size_t i = 0; i < f.size(); ++i) {
            auto got = get(x, *meta, i, f[i]);
            if (!same(f[i], got, v[k][i])) return f[i].str() + " field " + std::to_string(i) + ": " + got.str(f[i]) + " instead of " + v[k][i].str(f[i]);
        }
        return "";
    }
};

// another user of the page pool which overwrites every page it gets
struct neighbour {
    std::vector<jmem::page_pool::page_info> held;
    ~neighbour() { for (auto& p : held) jogasaki::global::page_pool().release_page(p); }
    void act(vh::rng& g) {
        if (held.size() < 6 && g.coin()) {
            auto p = jogasaki::global::page_pool().acquire_page();
            std::memset(p.address(), 0xee, jmem::page_size);
            held.push_back(p);
        } else if (!held.empty()) {
            jogasaki::global::page_pool().release_page(held.back());
            held.pop_back();
        }
    }
};
// leaves free pages with foreign content in the pool, in a random order
void dirty(vh::rng& g, std::size_t n) {
    std::vector<jmem::page_pool::page_info> h;
    for (std::size_t i = 0; i < n; ++i) {
        auto p = jogasaki::global::page_pool().acquire_page();
        std::memset(p.address(), static_cast<int>(g.below(2)), jmem::page_size);
        h.push_back(p);
    }
    while (!h.empty()) {
        auto i = g.below(h.size());
        jogasaki::global::page_pool().release_page(h[i]);
        h.erase(h.begin() + static_cast<std::ptrdiff_t>(i));
    }
}

// page based memory of either kind
struct pages {
    bool mono;
    jmem::lifo_paged_memory_resource l{&jogasaki::global::page_pool()};
    jmem::monotonic_paged_memory_resource m{&jogasaki::global::page_pool()};
    explicit pages(bool x) : mono(x) {}
    jmem::paged_memory_resource* get() { return mono ? static_cast<jmem::paged_memory_resource*>(&m) : &l; }
    void release() { if (!mono) l.deallocate_after(jmem::lifo_paged_memory_resource::initial_checkpoint); }
};

void iterable(vh::rng& g) {
    std::size_t fields = g.coin(15) ? 0 : 1 + g.below(8);
    stock s(g, fields, 24, 60);
    bool mono = g.coin();
    pages res{mono}, var{mono};
    jd::iterable_record_store st{res.get(), var.get(), s.meta};
    jd::record_store plain{res.get(), var.get(), s.meta};
    for (int round = 0; round < 2; ++round) {
        std::vector<std::size_t> m;
        std::vector<void*> ptr;
        std::vector<std::pair<void*, std::size_t>> other;
        VH_CHECK(st.empty() && st.count() == 0 && st.begin() == st.end(), "iterable.empty", "records before the first append");
        std::size_t n = g.coin(8) ? 1 + 3 * jmem::page_size / std::max<std::size_t>(s.meta->record_size(), 64) : 1 + g.below(600);
        bool mixed = g.coin(40);
        for (std::size_t i = 0; i < n; ++i) {
            auto k = g.below(s.r.size());
            auto r = st.append(s.r[k].ref);
            m.push_back(k);
            ptr.push_back(r.data());
            VH_CHECK(r.size() == s.meta->record_size(), "iterable.size", r.size() << " for " << s.meta->record_size());
            if (mixed && g.coin(10)) {
                auto j = g.below(s.r.size());
                if (g.coin()) {
                    auto* p = plain.append(s.r[j].ref);
                    other.emplace_back(p, j);
                } else {
                    auto* p = plain.allocate_record();
                    std::memcpy(p, s.r[j].buf.get(), s.meta->record_size());
                    other.emplace_back(p, j);
                }
            }
            if (g.coin(1) && g.coin(20)) res.get()->end_current_page();
        }
        VH_CHECK(st.count() == n && !st.empty(), "iterable.count", st.count() << " of " << n);
        VH_CHECK(plain.count() == other.size() && plain.empty() == other.empty(), "record_store.count", plain.count() << " of " << other.size());
        std::size_t i = 0;
        for (auto it = st.begin(); it != st.end(); ++it, ++i) {
            if (i >= n) break;
            auto r = *it;
            VH_CHECK(r.data() == ptr[i] && it.ref().data() == ptr[i] && r.size() == s.meta->record_size(), "iterable.position", "record " << i << " of " << n);
            auto d = s.differs(r, m[i]);
            VH_CHECK(d.empty(), "iterable.content", "record " << i << " of " << n << ": " << d);
        }
        vh::event("records iterated", n);
        VH_CHECK(i == n, "iterable.all", "iterated " << i << " of " << n << " records");
        auto it = st.begin();
        auto was = it++;
        VH_CHECK(was == st.begin() && (n == 1) == (it == st.end()), "iterable.postfix", "postfix increment");
        for (auto& [p, k] : other) {
            auto d = s.differs(record_ref{p, s.meta->record_size()}, k);
            VH_CHECK(d.empty(), "record_store.content", d);
        }
        VH_CHECK(*st.meta() == *s.meta && st.record_size() == s.meta->record_size() && *plain.meta() == *s.meta && plain.varlen_resource() == var.get(), "store.meta", "other metadata");
        vh::nontrivial(vh::mix(n * 31 + s.meta->record_size() + (mixed ? 1 : 0)));
        st.reset();
        plain.reset();
        VH_CHECK(st.empty() && st.count() == 0 && st.begin() == st.end() && plain.empty(), "iterable.reset", "records left by reset");
        res.release();
        var.release();
        dirty(g, 1 + g.below(4));
    }
}

void check_result(stock& s, jd::result_store& st, std::vector<std::vector<std::size_t>> const& m, std::vector<bool> const& gone) {
    std::vector<std::size_t> want;
    for (std::size_t p = 0; p < m.size(); ++p) if (!gone[p]) want.insert(want.end(), m[p].begin(), m[p].end());
    VH_CHECK(st.partitions() == m.size(), "result.partitions", st.partitions() << " of " << m.size());
    for (std::size_t p = 0; p < m.size() + 2; ++p) VH_CHECK(st.exists(p) == (p < m.size() && !gone[p]), "result.exists", "partition " << p << " of " << m.size());
    for (std::size_t p = 0; p < m.size(); ++p) if (!gone[p]) VH_CHECK(st.partition(p).count() == m[p].size(), "result.count", "partition " << p << " holds " << st.partition(p).count() << " of " << m[p].size());
    VH_CHECK(st.empty() == want.empty(), "result.empty", "empty() with " << want.size() << " records");
    std::size_t i = 0;
    auto e = st.end();
    for (auto it = st.begin(); it != e && i < want.size(); ++i) {
        auto d = s.differs(*it, want[i]);
        VH_CHECK(d.empty(), "result.content", "record " << i << " of " << want.size() << ": " << d);
        if (i % 2 == 0) ++it; else { auto was = it++; VH_CHECK(was != it, "result.postfix", "iterator did not move"); }
        if (i + 1 == want.size()) VH_CHECK(it == e, "result.end", "more records than the " << want.size() << " appended");
        else VH_CHECK(it != e, "result.end", "end after " << i + 1 << " of " << want.size());
    }
    vh::event("result records iterated", want.size());
    VH_CHECK(i == want.size(), "result.all", i << " of " << want.size() << " records");
    vh::nontrivial(vh::mix(want.size() * 131 + m.size()));
}

void result(vh::rng& g) {
    stock s(g, 1 + g.below(6), 16, 80);
    jd::result_store st{};
    std::vector<std::vector<std::size_t>> m;
    std::vector<bool> gone;
    std::size_t init = g.below(4);
    if (g.coin()) { st.initialize(init, s.meta); m.resize(init); gone.resize(init); }
    else st.initialize(s.meta);
    VH_CHECK(*st.meta() == *s.meta, "result.meta", "other metadata");
    for (std::size_t steps = 3 + g.below(25); steps > 0; --steps) {
        switch (g.below(8)) {
            case 0: {
                auto i = st.add_partition();
                VH_CHECK(i == m.size(), "result.index", "new partition " << i << " instead of " << m.size());
                m.emplace_back(); gone.push_back(false);
                break;
            }
            case 1: {
                auto i = g.below(m.size() + 2);
                if (!g.coin(40)) break;
                st.clear_partition(i);
                if (i < m.size()) gone[i] = true;
                dirty(g, 2);
                break;
            }
            case 2: check_result(s, st, m, gone); break;
            default: {
                if (m.empty()) break;
                auto p = g.below(m.size());
                if (gone[p]) break;
                for (std::size_t n = g.coin(5) ? 9000 : 1 + g.below(40); n > 0; --n) {
                    auto k = g.below(s.r.size());
                    st.partition(p).append(s.r[k].ref);
                    m[p].push_back(k);
                }
            }
        }
    }
    check_result(s, st, m, gone);
}


// writers acquired and used by several threads, then read back
void result_threads(vh::rng& g) {
    stock s(g, 1 + g.below(6), 16, 80);
    auto st = std::make_shared<jd::result_store>();
    jogasaki::api::impl::result_store_channel ch{takatori::util::maybe_shared_ptr<jd::result_store>{st}};
    std::vector<std::optional<std::string>> names(s.f.size());
    jogasaki::status m = ch.meta(std::make_shared<jm::external_record_meta>(s.meta, std::move(names)));
    VH_CHECK(m == jogasaki::status::ok, "channel.meta", "refused");
    std::size_t threads = 2 + g.below(4), writers = 1 + g.below(3);
    struct out { std::size_t index; std::vector<std::size_t> m; };
    std::vector<std::vector<out>> o(threads);
    std::atomic<int> bad{0};
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < threads; ++i) {
        t.emplace_back([&, i, seed = g.next()] {
            vh::rng r(seed);
            for (std::size_t w = 0; w < writers; ++w) {
                std::shared_ptr<jogasaki::executor::io::record_writer> wr;
                if (ch.acquire(wr) != jogasaki::status::ok || !wr) { ++bad; return; }
                out x;
                x.index = static_cast<jogasaki::api::impl::result_store_channel_writer&>(*wr).index();
                for (std::size_t n = r.below(200); n > 0; --n) {
                    auto k = r.below(s.r.size());
                    if (!wr->write(s.r[k].ref)) ++bad;
                    x.m.push_back(k);
                }
                wr->flush();
                if (static_cast<jogasaki::api::impl::result_store_channel_writer&>(*wr).write_count() != x.m.size()) ++bad;
                wr->release();
                o[i].push_back(std::move(x));
            }
        });
    }
    for (auto& x : t) x.join();
    VH_CHECK(bad == 0, "channel.write", bad.load() << " failed acquisitions, writes or counts");
    std::vector<std::vector<std::size_t>> model(threads * writers);
    std::vector<bool> seen(threads * writers, false);
    std::size_t total = 0;
    for (auto& v : o) for (auto& x : v) {
        bool fresh = x.index < seen.size() && !seen[x.index];
        VH_CHECK(fresh, "channel.index", "writer position " << x.index << " given twice or out of range");
        if (!fresh) return;
        seen[x.index] = true;
        model[x.index] = x.m;
        total += x.m.size();
    }
    VH_CHECK(ch.statistics().total_record_count() == total, "channel.total", ch.statistics().total_record_count() << " of " << total);
    check_result(s, *st, model, std::vector<bool>(model.size(), false));
}

void small(vh::rng& g) {
    stock s(g, g.below(8), 12, 60);
    std::vector<fdesc> fixed;
    jmem::monotonic_paged_memory_resource var{&jogasaki::global::page_pool()};
    jd::small_record_store none{}, none2{};
    VH_CHECK(!none && none == none2, "small.none", "default constructed store");
    jd::small_record_store st{s.meta, &var}, other{s.meta, &var};
    VH_CHECK(static_cast<bool>(st) && st != none && none != st, "small.some", "constructed store");
    VH_CHECK(st.ref().size() == s.meta->record_size(), "small.size", st.ref().size());
    VH_CHECK(s.meta->record_alignment() == 0 || reinterpret_cast<std::uintptr_t>(st.ref().data()) % s.meta->record_alignment() == 0, "small.align", "misaligned");
    {
        fdesc a, b;
        a.k = kind::int4; b.k = kind::float4; a.nullable = b.nullable = g.coin();
        auto am = make_meta({a}), bm = make_meta({b});
        record zero(*am, 0);
        jd::small_record_store x{am, &var}, y{bm, &var}, z{am, &var};
        x.set(zero.ref); y.set(zero.ref); z.set(zero.ref);
        VH_CHECK(x == z && x != y && !(x == y), "small.types", "records of different types are equal");
    }
    if (s.meta->record_size() == 0) return;
    for (int i = 0; i < 12; ++i) {
        auto k = g.below(s.r.size()), j = g.below(s.r.size());
        auto* p = st.set(s.r[k].ref);
        VH_CHECK(p == st.ref().data(), "small.pointer", "set() returns another place");
        auto d = s.differs(st.ref(), k);
        VH_CHECK(d.empty(), "small.content", d);
        other.set(s.r[j].ref);
        bool equal = std::memcmp(st.ref().data(), other.ref().data(), s.meta->record_size()) == 0;
        VH_CHECK((st == other) == equal && (st != other) != equal, "small.equal", "equality of records " << k << " and " << j);
        d = s.differs(st.ref(), k);
        VH_CHECK(d.empty(), "small.independent", d);
        jd::small_record_store tmp{s.meta, &var};
        tmp.set(s.r[k].ref);
        jd::small_record_store moved{std::move(tmp)};
        d = s.differs(moved.ref(), k);
        VH_CHECK(d.empty(), "small.move", d);
        vh::event("small stores compared");
    }
}

template <class T> T value_of(fdesc const& f, val const& v, heap_resource& h) {
    std::vector<fdesc> one{f};
    auto m = make_meta(one);
    record r(*m);
    put(r.ref, *m, 0, f, v, &h);
    return r.ref.get_value<T>(m->value_offset(0));
}
template <class T> val val_of(fdesc const& f, T const& x) {
    std::vector<fdesc> one{f};
    auto m = make_meta(one);
    record r(*m);
    if (f.nullable) r.ref.set_null(m->nullity_offset(0), false);
    r.ref.set_value<T>(m->value_offset(0), x);
    return get(r.ref, *m, 0, f);
}

template <class T> void values_as(vh::rng& g, fdesc f) {
    heap_resource h;
    std::vector<val> v;
    std::vector<T> x;
    for (std::size_t i = 0; i < 40; ++i) {
        v.push_back(rand_val(g, f, 0));
        x.push_back(value_of<T>(f, v.back(), h));
    }
    bool mono = g.coin(40);
    std::size_t used = 0;
    pages res{mono}, var{mono}, nul{mono};
    bool shared = g.coin(30);
    jd::value_store st{make_type(f), res.get(), var.get(), f.nullable ? nul.get() : nullptr};
    VH_CHECK(st.type() == make_type(f), "value.type", f.str());
    for (int round = 0; round < 3; ++round) {
        std::size_t per = jmem::page_size / sizeof(T);
        std::size_t n = g.coin(sizeof(T) == 1 ? 3 : 15) ? per + g.below(per / 4) : g.coin(2) ? per : 1 + g.below(3000);
        if (g.coin(8)) n = 0;
        // null flags are limited to one page
        n = std::min<std::size_t>(n, jmem::page_size - (mono ? used : 0));
        used += n;
        VH_CHECK(st.empty() && st.count() == 0 && st.begin<T>() == st.end<T>(), "value.empty", "values before the first append, round " << round);
        std::vector<unsigned char> m;
        for (std::size_t i = 0; i < n; ++i) {
            if (shared && g.coin(2)) (void) res.get()->allocate(1 + g.below(20), 1);
            if (f.nullable && g.coin(30)) { st.append_null(); m.push_back(255); continue; }
            auto k = g.below(x.size());
            st.append<T>(x[k]);
            m.push_back(static_cast<unsigned char>(k));
        }
        VH_CHECK(st.count() == n && st.empty() == (n == 0), "value.count", st.count() << " of " << n);
        std::size_t i = 0;
        auto e = st.end<T>();
        bool bad = false;
        for (auto it = st.begin<T>(); it != e && i < n && !bad; ++i) {
            bool null = m[i] == 255;
            bad = it.is_null() != null;
            VH_CHECK(!bad, "value.null", f.str() << " value " << i << " of " << n << (null ? " is not null" : " is null") << " in round " << round);
            if (!null && !bad) {
                auto got = val_of<T>(f, *it);
                bad = !same(f, got, v[m[i]]);
                VH_CHECK(!bad, "value.content", f.str() << " value " << i << " of " << n << ": " << got.str(f) << " instead of " << v[m[i]].str(f));
            }
            VH_CHECK(it.valid(), "value.valid", "iterator inside the store");
            if (i % 7 == 0) { auto was = it++; VH_CHECK(was != it, "value.postfix", "iterator did not move"); } else ++it;
        }
        vh::event("values iterated", n);
        if (!bad) VH_CHECK(i == n, "value.all", f.str() << " " << i << " of " << n);
        VH_CHECK(!e.valid(), "value.end", "end iterator is valid");
        vh::nontrivial(vh::mix(n * 16 + static_cast<std::size_t>(f.k)));
        st.reset();
        res.release();
        if (g.coin()) dirty(g, 1 + g.below(3));
        nul.release();
        var.release();
        dirty(g, 1 + g.below(4));
    }
}
void values(vh::rng& g) {
    fdesc f = rand_desc(g, {kind::boolean, kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point});
    switch (f.k) {
        case kind::boolean: return values_as<runtime_t<kind::boolean>>(g, f);
        case kind::int4: return values_as<runtime_t<kind::int4>>(g, f);
        case kind::int8: return values_as<runtime_t<kind::int8>>(g, f);
        case kind::float4: return values_as<runtime_t<kind::float4>>(g, f);
        case kind::float8: return values_as<runtime_t<kind::float8>>(g, f);
        case kind::decimal: return values_as<runtime_t<kind::decimal>>(g, f);
        case kind::character: return values_as<runtime_t<kind::character>>(g, f);
        case kind::octet: return values_as<runtime_t<kind::octet>>(g, f);
        case kind::date: return values_as<runtime_t<kind::date>>(g, f);
        case kind::time_of_day: return values_as<runtime_t<kind::time_of_day>>(g, f);
        default: return values_as<runtime_t<kind::time_point>>(g, f);
    }
}

void fifo(vh::rng& g) {
    stock s(g, g.coin(15) ? 0 : 1 + g.below(6), 24, g.coin() ? 20 : 3000);
    jmem::fifo_paged_memory_resource res{&jogasaki::global::page_pool()}, var{&jogasaki::global::page_pool()};
    neighbour nb;
    // without memory of its own for texts the store refers to those of the source
    jd::fifo_record_store st{&res, g.coin(15) ? nullptr : &var, s.meta};
    std::deque<std::size_t> q;
    std::optional<std::size_t> last;
    record_ref cur{};
    unsigned phase = 50;
    std::size_t steps = g.coin(25) ? 20000 : 300;
    for (std::size_t i = 0; i < steps; ++i) {
        if (g.coin(3)) phase = static_cast<unsigned>(20 + g.below(70));
        if (g.coin(2)) nb.act(g);
        if (g.coin(phase)) {
            auto k = g.below(s.r.size());
            st.push(s.r[k].ref);
            q.push_back(k);
        } else {
            if (last) {
                auto d = s.differs(cur, *last);
                VH_CHECK(d.empty(), "fifo.kept", "record changed before the next was asked for: " << d);
            }
            last.reset();
            bool ok = st.try_pop(cur);
            VH_CHECK(ok == !q.empty(), "fifo.pop", "pop gives " << ok << " with " << q.size() << " records");
            if (ok && !q.empty()) {
                auto d = s.differs(cur, q.front());
                VH_CHECK(d.empty(), "fifo.order", "record " << i << ": " << d);
                if (!d.empty()) return;
                last = q.front();
                q.pop_front();
            }
        }
        VH_CHECK(st.count() == q.size() && st.empty() == q.empty(), "fifo.count", st.count() << " of " << q.size());
    }
    vh::event("queue operations", steps);
    while (!q.empty()) {
        if (!st.try_pop(cur)) { VH_CHECK(false, "fifo.drain", "empty with " << q.size() << " records left"); return; }
        auto d = s.differs(cur, q.front());
        VH_CHECK(d.empty(), "fifo.drain", d);
        if (!d.empty()) return;
        q.pop_front();
    }
    VH_CHECK(!st.try_pop(cur), "fifo.drain", "more records than pushed");
    VH_CHECK(res.count_pages() <= 1 && var.count_pages() <= 2, "fifo.memory", res.count_pages() << " record pages and " << var.count_pages() << " data pages kept for an empty queue");
    vh::nontrivial(vh::mix(steps + s.meta->record_size() * 64));
}

// one producer and one consumer at the same time
void fifo_threads(vh::rng& g) {
    stock s(g, 1 + g.below(6), 24, g.coin() ? 20 : 3000);
    jmem::fifo_paged_memory_resource res{&jogasaki::global::page_pool()}, var{&jogasaki::global::page_pool()};
    jd::fifo_record_store st{&res, &var, s.meta};
    std::size_t n = 500 + g.below(2500);
    std::vector<std::size_t> m;
    for (std::size_t i = 0; i < n; ++i) m.push_back(g.below(s.r.size()));
    auto seed = g.next();
    std::thread prod([&] {
        vh::rng r(seed);
        for (std::size_t i = 0; i < n; ++i) {
            st.push(s.r[m[i]].ref);
            if (r.coin(5)) std::this_thread::yield();
        }
    });
    std::size_t i = 0, dry = 0;
    record_ref cur{};
    while (i < n) {
        if (st.try_pop(cur)) {
            auto d = s.differs(cur, m[i]);
            VH_CHECK(d.empty(), "fifo.threads", "record " << i << ": " << d);
            if (!d.empty()) break;
            ++i;
        } else {
            ++dry;
            std::this_thread::yield();
        }
        (void) st.count();
    }
    prod.join();
    vh::event("records handed between threads", i);
    if (i == n) VH_CHECK(!st.try_pop(cur) && st.empty(), "fifo.threads_end", "more records than pushed");
    vh::nontrivial(vh::mix(seed ^ dry));
}

void table(vh::rng& g) {
    jmem::monotonic_paged_memory_resource res{&jogasaki::global::page_pool()};
    using jogasaki::executor::exchange::shuffle::pointer_table;
    std::size_t cap = 1 + g.below(3000);
    pointer_table t{&res, cap};
    std::vector<void*> m;
    VH_CHECK(t.empty() && t.size() == 0 && t.capacity() == cap, "table.new", t.size() << " of " << t.capacity());
    for (std::size_t n = g.coin(30) ? cap : g.below(cap + 1); n > 0; --n) {
        void* p = reinterpret_cast<void*>(static_cast<std::uintptr_t>(g.next()));
        t.emplace_back(p);
        m.push_back(p);
    }
    VH_CHECK(t.size() == m.size() && t.empty() == m.empty() && std::vector<void*>(t.begin(), t.end()) == m, "table.content", t.size() << " of " << m.size());
    vh::event("pointer tables");
}
}

int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    bool ts = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c26_store", "histories of appends, pops, resets and page switches per store; runs of one producer and one consumer; distinct by history", [ts] {
        vh::rng r(vh::seed() * 53 + 26);
        if (!ts) for (std::size_t i = 0; i < vh::scale(60, 1500); ++i) {
            vh::guarded("iterable", [&] { iterable(r); });
            vh::guarded("result", [&] { result(r); });
            vh::guarded("small", [&] { small(r); });
            vh::guarded("values", [&] { values(r); });
            vh::guarded("fifo", [&] { fifo(r); });
            vh::guarded("table", [&] { table(r); });
        }
        for (std::size_t i = 0; i < vh::scale(ts ? 30 : 40, 600); ++i) {
            vh::guarded("fifo_threads", [&] { fifo_threads(r); });
            vh::guarded("result_threads", [&] { result_threads(r); });
        }
    });
}
