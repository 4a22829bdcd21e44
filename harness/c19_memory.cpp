// Paged memory: nothing handed out overlaps or moves, checkpoints restore exactly, pages come back, failures change nothing.
#include "vh.h"
#include <deque>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/block_memory_resource.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/utils/checkpoint_holder.h>
#include <jogasaki/utils/lazy_checkpoint_holder.h>
#include <nlohmann/json.hpp>
using namespace vh;
namespace mem = jogasaki::memory;
namespace {
auto g_config = std::make_shared<jogasaki::configuration>();
std::mutex g_m;
std::map<char*, char*> g_mapped;   // pages the process holds and the mappings around them
constexpr std::size_t slack = 65536;
std::atomic<int> g_fail_after{-1};  // the n-th mapping fails
std::atomic<std::uint64_t> g_maps{0}, g_unmaps{0}, g_bad{0};
}
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static takatori::util::maybe_shared_ptr<configuration> p{g_config};
    if (arg) p = std::move(arg);
    return p;
}
memory::page_pool& page_pool(pool_operation) {
    static memory::page_pool p;
    return p;
}
}
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);
extern "C" void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) {
    if ((f & MAP_HUGETLB) != 0) { errno = ENOMEM; return MAP_FAILED; }
    if (g_fail_after >= 0 && g_fail_after-- <= 0) { g_fail_after = 0; errno = ENOMEM; return MAP_FAILED; }
    // the system promises no more than 4096 byte alignment
    auto* r = __real_mmap(a, n + slack, p, f, fd, o);
    if (r == MAP_FAILED) return r;
    std::lock_guard l(g_m);
    auto* q = static_cast<char*>(r) + (++g_maps * 7 % (slack / 4096)) * 4096;
    g_mapped[q] = static_cast<char*>(r);
    return q;
}
extern "C" int __wrap_munmap(void* a, size_t n) {
    std::lock_guard l(g_m);
    ++g_unmaps;
    auto it = g_mapped.find(static_cast<char*>(a));
    if (n != mem::page_size || it == g_mapped.end()) { ++g_bad; return __real_munmap(a, n); }
    auto* q = it->second;
    g_mapped.erase(it);
    return __real_munmap(q, n + slack);
}
namespace {
std::size_t mapped() { std::lock_guard l(g_m); return g_mapped.size(); }

struct piece { char* p; std::size_t n, a; char tag; };
// live pieces of one resource
struct live {
    std::deque<piece> v;
    char next{1};
    void add(void* p, std::size_t n, std::size_t a, std::string const& tr) {
        auto* c = static_cast<char*>(p);
        VH_CHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % a == 0, "alloc.aligned", tr << " " << p << " for alignment " << a);
        {
            std::lock_guard l(g_m);
            auto it = g_mapped.upper_bound(c);
            VH_CHECK(it != g_mapped.begin(), "alloc.inside", tr << " outside every page");
            --it;
            VH_CHECK(c >= it->first && c + n <= it->first + mem::page_size, "alloc.inside", tr << " crosses its page");
        }
        for (auto& x : v) VH_CHECK(c + n <= x.p || x.p + x.n <= c, "alloc.overlap", tr << " overlaps memory in use");
        piece q{c, n, a, next};
        next = static_cast<char>(next % 120 + 1);
        fill(q);
        v.push_back(q);
    }
    static void fill(piece const& q) {
        auto k = std::min<std::size_t>(q.n, 64);
        std::memset(q.p, q.tag, k);
        std::memset(q.p + q.n - k, q.tag, k);
    }
    void check(std::string const& tr) const {
        for (auto& q : v) {
            auto k = std::min<std::size_t>(q.n, 64);
            for (std::size_t i = 0; i < k; ++i) VH_CHECK(q.p[i] == q.tag && q.p[q.n - 1 - i] == q.tag, "content", tr << " memory in use changed");
        }
    }
};
struct shape { std::size_t n, a; };
shape pick(rng& r, std::size_t amax) {
    shape s{};
    switch (r.below(8)) {
        case 0: case 1: case 2: s.n = 1 + r.below(100); break;
        case 3: case 4: s.n = 1 + r.below(200000); break;
        case 5: s.n = mem::page_size / 2 - r.below(3); break;
        case 6: s.n = mem::page_size - r.below(2) * r.below(5000); break;
        default: s.n = 1 + r.below(mem::page_size); break;
    }
    s.a = std::size_t{1} << r.below(r.coin(85) ? 7 : 13);
    if (amax > 4096 && r.coin(8)) s.a = std::size_t{1} << (13 + r.below(2));
    s.a = std::min(s.a, amax);
    if (s.a > 4096) s.n = std::min(s.n, mem::page_size / 2);
    return s;
}
template <class R> bool refuses(R& m, std::size_t n, std::size_t a) {
    try { (void) m.allocate(n, a); } catch (std::bad_alloc const&) { return true; }
    return false;
}
struct hostile {
    std::string& tr; rng& r;
    // requests which can not be served: too large, or no page left
    template <class R> void operator()(R& m, bool counted = true) {
        auto before = m.count_pages();
        auto rem = m.page_remaining(8);
        static const std::size_t big[] = {mem::page_size + 1, mem::page_size * 2, std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max() - 4095,
            std::numeric_limits<std::size_t>::max() - mem::page_size, std::numeric_limits<std::size_t>::max() / 2, (std::size_t{1} << 32) + 5, std::size_t{1} << 63};
        if (r.coin()) {
            auto n = big[r.below(8)];
            auto a = std::size_t{1} << r.below(5);
            tr += "huge;";
            VH_CHECK(refuses(m, n, a), "oversize.accepted", tr << " " << n << " bytes were handed out");
        } else {
            tr += "nopage;";
            auto n = mem::page_size;
            g_fail_after = 0;
            // the pool may still own a free page
            std::vector<mem::page_pool::page_info> drained;
            auto& pool = jogasaki::global::page_pool();
            for (;;) { auto p = pool.acquire_page(); if (!p) break; drained.push_back(p); }
            bool ref = m.page_remaining(1) == mem::page_size;
            if (!ref) {
                // a resource may hold a spare page for itself
                try { auto* p = m.allocate(n, 1); m.deallocate(p, n, 1); } catch (std::bad_alloc const&) { ref = true; }
            }
            g_fail_after = -1;
            for (auto& p : drained) pool.release_page(p);
            if (!reserved_) VH_CHECK(ref, "exhausted.accepted", tr << " memory handed out though the system has none");
            event("exhausted");
        }
        VH_CHECK(!counted || m.count_pages() == before, "refused.pages", tr << " a refused request changed the pages from " << before << " to " << m.count_pages());
        VH_CHECK(m.page_remaining(8) == rem, "refused.remaining", tr << " a refused request changed the room left");
    }
    bool reserved_{false};
};
// n bytes fit exactly where the resource says there is room
template <class R> void room(R& m, live& l, rng& r, std::string& tr, bool paged) {
    auto a = std::size_t{1} << r.below(8);
    auto n = m.page_remaining(a);
    if (n == 0 || n == R::unknown_size) return;
    VH_CHECK(n <= mem::page_size, "remaining.range", tr << n);
    auto c = m.count_pages();
    if (r.coin(20)) n -= r.below(n);
    tr += "room" + std::to_string(n) + "/" + std::to_string(a) + ";";
    l.add(m.allocate(n, a), n, a, tr);
    VH_CHECK(!paged || m.count_pages() == c, "remaining.wrong", tr << " " << n << " bytes said to fit in the page needed another one");
}

template <class Z, class S> void same_end(Z& z, rng& r, S const& same) {
    if (r.coin()) { z.reset(); same("lazy reset"); z.release(); }
    else { z.release(); same("lazy release"); z.unset(); }
    z.set_checkpoint();   // may be set again
    if (r.coin()) z.unset();
}
void lifo(rng& r) {
    auto base = mapped();
    std::string tr = "lifo:";
    {
        auto& pool = jogasaki::global::page_pool();
        mem::lifo_paged_memory_resource m{&pool};
        live l;
        struct cp { mem::lifo_paged_memory_resource::checkpoint c; std::size_t n, pages, room; };
        std::vector<cp> cps;
        for (auto n = 1 + r.below(30); n > 0; --n) {
            switch (r.below(11)) {
                case 0: case 1: case 2: {
                    auto s = pick(r, 16384);
                    tr += "a" + std::to_string(s.n) + "/" + std::to_string(s.a) + ";";
                    l.add(m.allocate(s.n, s.a), s.n, s.a, tr);
                    break;
                }
                case 3: room(m, l, r, tr, true); break;
                case 4:
                    // only what is younger than the last checkpoint may be given back
                    if (!l.v.empty() && (cps.empty() || l.v.size() > cps.back().n)) {
                        tr += "d;";
                        auto q = l.v.back();
                        l.v.pop_back();
                        m.deallocate(q.p, q.n, q.a);
                    }
                    break;
                case 5: case 6: tr += "c;"; cps.push_back({m.get_checkpoint(), l.v.size(), m.count_pages(), m.page_remaining(1)}); break;
                case 7: case 8: {
                    if (cps.empty()) break;
                    auto k = cps.size() - 1 - r.below(std::min<std::size_t>(cps.size(), 3));
                    tr += "r" + std::to_string(k) + ";";
                    l.v.resize(std::min(l.v.size(), cps[k].n));
                    m.deallocate_after(cps[k].c);
                    VH_CHECK(m.count_pages() <= cps[k].pages, "lifo.restore.pages", tr << " " << m.count_pages() << " pages after restoring to " << cps[k].pages);
                    if (cps[k].room < mem::page_size) VH_CHECK(m.count_pages() == cps[k].pages && m.page_remaining(1) == cps[k].room, "lifo.restore.exact", tr << " " << m.count_pages() << " pages and " << m.page_remaining(1) << " bytes left, not " << cps[k].pages << " and " << cps[k].room);
                    cps.resize(k + (r.coin(60) ? 1 : 0));  // a checkpoint may be used again
                    break;
                }
                case 9: {
                    tr += "e;";
                    m.end_current_page();
                    VH_CHECK(m.page_remaining(1) == mem::page_size, "end_page", tr);
                    break;
                }
                default: { hostile h{tr, r}; h.reserved_ = true; try { h(m); } catch (std::exception const&) { throw; } break; }
            }
            l.check(tr);
        }
        if (r.coin()) {
            // scopes
            auto n0 = l.v.size();
            auto pages0 = m.count_pages();
            auto room0 = m.page_remaining(1);
            auto same = [&](char const* w) {
                if (room0 < mem::page_size) VH_CHECK(m.count_pages() == pages0 && m.page_remaining(1) == room0, "scope.exact", tr << w << " " << m.count_pages() << " pages and " << m.page_remaining(1) << " bytes left, not " << pages0 << " and " << room0);
                else VH_CHECK(m.count_pages() <= pages0, "scope.exact", tr << w << " " << m.count_pages() << " pages, not " << pages0);
            };
            {
                jogasaki::utils::checkpoint_holder h1{&m};
                auto keep = l.v;
                for (int i = 0; i < 3; ++i) {
                    jogasaki::utils::checkpoint_holder h2{&m};
                    auto s = pick(r, 64);
                    l.add(m.allocate(s.n, s.a), s.n, s.a, tr + "scope");
                    l.v.resize(n0);
                    if (r.coin()) { h2.reset(); same("reset"); }
                }
                jogasaki::utils::lazy_checkpoint_holder z{&m};
                z.release();
                z.reset();
                z.set_checkpoint();
                for (int i = 0; i < 3; ++i) {
                    auto s = pick(r, 64);
                    l.add(m.allocate(s.n, s.a), s.n, s.a, tr + "lazy");
                    l.v.resize(n0);
                    if (i < 2) { z.release(); same("release"); }
                }
                same_end(z, r, same);
                l.check(tr + "scoped");
            }
            same("scope end");
            l.check(tr + "after scopes");
        }
        if (r.coin(30)) { m.deallocate_after(mem::lifo_paged_memory_resource::initial_checkpoint); VH_CHECK(m.count_pages() == 0, "lifo.initial", tr << m.count_pages()); l.v.clear(); }
    }
    (void) base;
    nontrivial(hash(tr));
    if (r.below(800) == 0) sample(tr);
}
void fifo(rng& r) {
    std::string tr = "fifo:";
    auto& pool = jogasaki::global::page_pool();
    mem::fifo_paged_memory_resource m{&pool};
    live l;
    struct cp { mem::fifo_paged_memory_resource::checkpoint c; std::size_t seq; };
    std::deque<cp> cps;
    std::size_t first = 0;  // sequence number of the oldest piece
    bool padded = r.coin(10);
    for (auto n = 1 + r.below(30); n > 0; --n) {
        switch (r.below(10)) {
            case 0: case 1: case 2: {
                auto s = pick(r, padded ? 16384 : 4096);
                tr += "a" + std::to_string(s.n) + "/" + std::to_string(s.a) + ";";
                l.add(m.allocate(s.n, s.a), s.n, s.a, tr);
                break;
            }
            case 3: room(m, l, r, tr, true); break;
            case 4: case 5:
                if (!l.v.empty()) {
                    tr += "d;";
                    auto q = l.v.front();
                    l.v.pop_front();
                    ++first;
                    m.deallocate(q.p, q.n, q.a);
                    // checkpoints before the oldest piece are over
                    while (!cps.empty() && cps.front().seq < first) cps.pop_front();
                    while (!cps.empty() && cps.front().seq == first) cps.pop_front();
                }
                break;
            case 6: {
                // a place after which something will be live
                if (l.v.empty() || padded) break;
                tr += "c;";
                cps.push_back({m.get_checkpoint(), first + l.v.size()});
                break;
            }
            case 7: {
                if (cps.empty()) break;
                auto k = r.below(cps.size());
                tr += "r" + std::to_string(k) + ";";
                auto c = cps[k];
                auto gone = c.seq - first;
                l.v.erase(l.v.begin(), l.v.begin() + static_cast<std::ptrdiff_t>(gone));
                first = c.seq;
                m.deallocate_before(c.c);
                while (!cps.empty() && cps.front().seq <= first) cps.pop_front();
                break;
            }
            case 8: {
                if (m.count_pages() == 0) break;   // an empty first page could not be given back in order
                tr += "e;";
                m.end_current_page();
                VH_CHECK(m.page_remaining(1) == mem::page_size, "end_page", tr);
                break;
            }
            default: { hostile h{tr, r}; h(m); break; }
        }
        l.check(tr);
    }
    while (!l.v.empty()) { auto q = l.v.front(); l.v.pop_front(); m.deallocate(q.p, q.n, q.a); l.check(tr + "drain"); }
    VH_CHECK(m.count_pages() <= 1, "fifo.drained", tr << m.count_pages() << " pages kept after everything was given back");
    nontrivial(hash(tr));
    if (r.below(800) == 0) sample(tr);
}
void mono(rng& r) {
    std::string tr = "mono:";
    auto& pool = jogasaki::global::page_pool();
    mem::monotonic_paged_memory_resource m{&pool};
    live l;
    for (auto n = 1 + r.below(20); n > 0; --n) {
        switch (r.below(6)) {
            case 0: case 1: { auto s = pick(r, 16384); tr += "a" + std::to_string(s.n) + "/" + std::to_string(s.a) + ";"; l.add(m.allocate(s.n, s.a), s.n, s.a, tr); break; }
            case 2: room(m, l, r, tr, true); break;
            case 3: tr += "e;"; m.end_current_page(); VH_CHECK(m.page_remaining(1) == mem::page_size, "end_page", tr); break;
            case 4: if (!l.v.empty()) { auto& q = l.v[r.below(l.v.size())]; m.deallocate(q.p, q.n, q.a); tr += "d;"; } break;  // stays usable
            default: { hostile h{tr, r}; h(m); break; }
        }
        l.check(tr);
    }
    nontrivial(hash(tr));
}
template <std::size_t B> void block(rng& r) {
    std::string tr = "block" + std::to_string(B) + ":";
    auto& pool = jogasaki::global::page_pool();
    bool reuse = r.coin();
    mem::block_memory_resource<B> m{pool, reuse};
    live l;
    for (auto n = 1 + r.below(40); n > 0; --n) {
        switch (r.below(8)) {
            case 0: case 1: case 2: {
                auto s = pick(r, std::min<std::size_t>(4096, B / 2));
                if (s.n > mem::page_size - s.a) s.n -= s.a;
                tr += "a" + std::to_string(s.n) + "/" + std::to_string(s.a) + ";";
                l.add(m.allocate(s.n, s.a), s.n, s.a, tr);
                break;
            }
            case 3: case 4: case 5: {
                if (l.v.empty()) break;
                auto k = r.below(l.v.size());
                tr += "d" + std::to_string(k) + ";";
                auto q = l.v[k];
                l.v.erase(l.v.begin() + static_cast<std::ptrdiff_t>(k));
                m.deallocate(q.p, q.n, q.a);
                break;
            }
            case 6: {
                if (r.coin(40)) { tr += "e;"; m.end_current_page(); break; }
                // what is said to fit in the page does
                std::size_t a = 1;
                while (a * 2 <= std::min<std::size_t>(4096, B / 2) && r.coin(75)) a *= 2;
                auto n = m.page_remaining(a);
                if (n == 0 || n == mem::block_memory_resource<B>::unknown_size) break;
                VH_CHECK(n <= mem::page_size, "remaining.range", tr << n);
                auto c = m.count_pages();
                if (r.coin(60)) n = std::max<std::size_t>(1, n - r.below(n));
                tr += "room" + std::to_string(n) + "/" + std::to_string(a) + ";";
                l.add(m.allocate(n, a), n, a, tr);
                VH_CHECK(m.count_pages() == c, "remaining.wrong", tr << " " << n << " bytes said to fit in the page needed another one");
                break;
            }
            default: { hostile h{tr, r}; h(m); break; }
        }
        l.check(tr);
    }
    while (!l.v.empty()) { auto q = l.v.back(); l.v.pop_back(); m.deallocate(q.p, q.n, q.a); l.check(tr + "drain"); }
    VH_CHECK(refuses(m, 8, B), "block.alignment", "an alignment beyond half a block was accepted");
    nontrivial(hash(tr));
    if (r.below(800) == 0) sample(tr);
}
// one page's bookkeeping on its own
void page(rng& r, char* mem_) {
    mem::details::page_allocation_info p{mem::page_pool::page_info{mem_, 0}};
    std::deque<shape> off;   // offset, size in order
    std::deque<std::size_t> al;
    std::string tr;
    std::size_t top = 0;
    bool fifo = r.coin();
    for (auto n = 1 + r.below(40); n > 0; --n) {
        auto a = std::size_t{1} << r.below(r.coin(80) ? 7 : 13);
        if (r.coin(70)) {
            auto at = (top + a - 1) / a * a;
            std::size_t left = at > mem::page_size ? 0 : mem::page_size - at;
            VH_CHECK(p.remaining(a) == left, "page.remaining", tr << " says " << p.remaining(a) << ", expected " << left);
            std::size_t b = 1 + r.below(r.coin() ? 300 : 400000);
            switch (r.below(10)) {
                case 0: b = std::max<std::size_t>(left, 1); break;
                case 1: b = left + 1; break;
                case 2: b = std::numeric_limits<std::size_t>::max() - r.below(5000); break;
                case 3: b = std::numeric_limits<std::size_t>::max() - at + 1 + r.below(100); if (b < 1000) b = std::numeric_limits<std::size_t>::max(); break;
                default: break;
            }
            tr += "a" + std::to_string(b) + "/" + std::to_string(a) + ";";
            auto* q = static_cast<char*>(p.try_allocate_back(b, a));
            if (b > left) { VH_CHECK(q == nullptr, "page.overflow", tr << " handed out beyond the page"); continue; }
            VH_CHECK(q == mem_ + at, "page.place", tr << " at " << (q ? q - mem_ : -1) << ", expected " << at);
            if (off.empty()) {
                VH_CHECK(!p.empty(), "page.empty", tr);
                VH_CHECK(p.lower_bound_offset() == at, "page.bounds", tr << " the used region starts at " << p.lower_bound_offset() << ", the only piece at " << at);
            }
            off.push_back({at, b});
            al.push_back(a);
            top = at + b;
        } else if (!off.empty()) {
            auto s = fifo ? off.front() : off.back();
            auto sa = fifo ? al.front() : al.back();
            tr += "d;";
            bool ok = fifo ? p.try_deallocate_front(mem_ + s.n, s.a, sa) : p.try_deallocate_back(mem_ + s.n, s.a, sa);
            VH_CHECK(ok, "page.give_back", tr << " refused at " << s.n);
            if (fifo) { off.pop_front(); al.pop_front(); } else { off.pop_back(); al.pop_back(); }
            if (!fifo) top = off.empty() ? 0 : s.n;
            VH_CHECK(p.empty() == off.empty(), "page.empty", tr << " empty()=" << p.empty() << " with " << off.size() << " pieces");
            if (fifo && off.empty()) {
                // its room stays used up; go on from there in either direction
                VH_CHECK(p.upper_bound_offset() == top && p.lower_bound_offset() == top, "page.bounds", tr << " an emptied page is at " << p.lower_bound_offset() << ".." << p.upper_bound_offset());
                fifo = r.coin();
                tr += fifo ? "F;" : "L;";
            }
        }
        if (!off.empty()) {
            // foreign pieces are refused
            VH_CHECK(!p.try_deallocate_back(mem_ - 1, 1, 1) && !p.try_deallocate_front(mem_ - 1, 1, 1), "page.foreign", tr);
            VH_CHECK(!p.try_deallocate_back(mem_ + top, 1, 1), "page.foreign", tr << " gave back what is not allocated");
            if (fifo) VH_CHECK(!p.try_deallocate_front(mem_ + off.front().n + al.front() + off.front().a, 1, 1), "page.foreign", tr << " gave back out of order");
            if (fifo) {
                auto lb = p.lower_bound_offset();
                auto al1 = std::size_t{1} << r.below(6);
                VH_CHECK(!p.try_deallocate_front(mem_ + lb + al1, 1, al1), "page.foreign", tr << " gave back what is not the oldest piece");
                VH_CHECK(!p.try_deallocate_front(mem_ + off.front().n, top - off.front().n + 1 + r.below(2000), 1), "page.foreign", tr << " gave back more than is allocated");
            }
            VH_CHECK(!p.try_deallocate_back(mem_ + off.back().n, top - off.back().n + 1, 1), "page.foreign", tr << " gave back more than is allocated at the end");
            VH_CHECK(p.upper_bound_offset() == top && p.lower_bound_offset() <= off.front().n, "page.bounds", tr << p.lower_bound_offset() << ".." << p.upper_bound_offset());
        }
    }
    nontrivial(hash(tr, fifo));
}
void parallel(rng& r, bool os) {
    g_config->return_os_pages(os);
    auto base = mapped();
    {
        mem::page_pool pool;
        std::size_t T = 2 + r.below(6);
        std::atomic<int> go{0};
        std::vector<std::thread> th;
        std::mutex m;
        std::vector<mem::page_pool::page_info> swap;
        std::atomic<std::uint64_t> got{0}, recycled{0};
        std::set<void*> seen;
        for (std::size_t i = 0; i < T; ++i) th.emplace_back([&, i, s = r.next()] {
            rng q(s);
            std::vector<mem::page_pool::page_info> own;
            ++go;
            while (go < static_cast<int>(T)) {}
            auto owner = [](mem::page_pool::page_info p) -> std::uint64_t& { return *static_cast<std::uint64_t*>(p.address()); };
            std::uint64_t next = 1;
            std::map<void*, std::uint64_t> tag;
            auto check = [&](mem::page_pool::page_info p) { VH_EXPECT(owner(p) == tag[p.address()], "pool.exclusive", "a page in use was handed to somebody else"); };
            for (int k = 0; k < 60; ++k) {
                if (own.empty() || (own.size() < 6 && q.coin())) {
                    auto p = pool.acquire_page(q.coin(10));
                    VH_EXPECT(static_cast<bool>(p) && reinterpret_cast<std::uintptr_t>(p.address()) % mem::page_pool::min_alignment == 0, "pool.page", "no page or unaligned");
                    if (!p) continue;
                    ++got;
                    auto t = (static_cast<std::uint64_t>(i) << 32) + next++;
                    owner(p) = t;
                    tag[p.address()] = t;
                    own.push_back(p);
                    { std::lock_guard g(m); if (!seen.insert(p.address()).second) ++recycled; }
                } else {
                    auto x = q.below(own.size());
                    check(own[x]);
                    if (q.coin(30)) {
                        // given back by another thread
                        std::lock_guard g(m);
                        swap.push_back(own[x]);
                        if (swap.size() > 3) { auto p = swap.front(); swap.erase(swap.begin()); pool.release_page(p); }
                    } else pool.release_page(own[x]);
                    own.erase(own.begin() + static_cast<std::ptrdiff_t>(x));
                }
            }
            for (auto& p : own) { check(p); pool.release_page(p); }
        });
        for (auto& t : th) t.join();
        for (auto& p : swap) pool.release_page(p);
        std::ostringstream o;
        pool.unsafe_dump_info(o);
        auto j = nlohmann::json::parse(o.str(), nullptr, false);
        VH_CHECK(j.is_object() && j["nodes"].is_array(), "pool.dump", o.str());
        std::size_t free = 0;
        for (auto& n : j["nodes"]) { free += n["free_page_count"].get<std::size_t>(); VH_CHECK(n["free_page_bytes"] == n["free_page_count"].get<std::size_t>() * mem::page_size, "pool.dump.bytes", o.str()); }
        VH_CHECK(free == mapped() - base, "pool.lost", free << " free pages of " << mapped() - base << " taken from the system");
        if (os) VH_CHECK(free == 0, "pool.os", "pages kept though they are to go back to the system");
        event("pool.pages_acquired", got);
        event("pool.pages_recycled", recycled);
        nontrivial(mix(got * 1000 + recycled));
    }
    VH_CHECK(mapped() == base, "pool.leak", mapped() - base << " pages leaked");
    g_config->return_os_pages(false);
}
}
int main(int argc, char** argv) {
    bool ts = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c19_memory", "histories of allocate/give back/checkpoint/restore/page ends on every paged resource with refused and exhausted requests, and concurrent page traffic; distinct by history", [ts] {
        rng r(seed() * 59 + 19);
        for (unsigned c = 0; c < std::thread::hardware_concurrency(); ++c) (void) numa_node_of_cpu(static_cast<int>(c));  // libnuma fills its cache lazily and unlocked
        if (!ts) {
            auto* b = static_cast<char*>(std::aligned_alloc(4096, mem::page_size + 8192));
            auto* pg = b + 4096;
            for (std::size_t i = 0; i < scale(20000, 400000); ++i) guarded("page", [&] { page(r, pg); });
            std::free(b);
            for (std::size_t i = 0; i < scale(1500, 30000); ++i) {
                g_config->return_os_pages(r.coin(10));
                guarded("lifo", [&] { lifo(r); });
                guarded("fifo", [&] { fifo(r); });
                guarded("mono", [&] { mono(r); });
                guarded("block", [&] { block<64>(r); });
                guarded("block", [&] { block<4096>(r); });
                guarded("block", [&] { block<65536>(r); });
                guarded("held", [&] {
                    std::ostringstream o;
                    jogasaki::global::page_pool().unsafe_dump_info(o);
                    auto j = nlohmann::json::parse(o.str());
                    std::size_t free = 0;
                    for (auto& n : j["nodes"]) free += n["free_page_count"].get<std::size_t>();
                    VH_CHECK(free == mapped(), "pages.kept", mapped() - free << " pages are still held after their users are gone");
                    VH_CHECK(g_bad == 0, "unmap.bad", "something which is no page was given back to the system");
                });
                g_config->return_os_pages(false);
            }
            event("mmap", g_maps);
            event("munmap", g_unmaps);
        }
        for (std::size_t i = 0; i < scale(ts ? 60 : 150, 3000); ++i) guarded("parallel", [&] { parallel(r, r.coin(30)); });
    });
}
