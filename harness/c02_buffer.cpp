// Growable byte buffers against a plain model.
#include "vh.h"
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/utils/aligned_unique_ptr.h>
using namespace jogasaki;
using data::aligned_buffer;

struct model {
    std::string cur;       // visible bytes
    std::string last;      // last byte ever seen at each offset (0 when never)
    void sync() {
        if (last.size() < cur.size()) last.resize(cur.size(), '\0');
        std::copy(cur.begin(), cur.end(), last.begin());
    }
};

static void verify(aligned_buffer& b, model& m, std::size_t align, char const* op) {
    VH_CHECK(b.size() == m.cur.size(), std::string("buffer.size.") + op, "size " << b.size() << " expected " << m.cur.size());
    VH_CHECK(b.capacity() >= b.size(), std::string("buffer.capacity.") + op, "capacity " << b.capacity() << " < size " << b.size());
    VH_CHECK(b.empty() == m.cur.empty(), std::string("buffer.empty.") + op, "empty() wrong for size " << b.size());
    VH_CHECK(static_cast<bool>(b) == (b.capacity() != 0), std::string("buffer.bool.") + op, "bool wrong for capacity " << b.capacity());
    VH_CHECK(b.alignment() == align, std::string("buffer.alignment.") + op, "alignment " << b.alignment() << " expected " << align);
    VH_CHECK(reinterpret_cast<std::uintptr_t>(b.data()) % align == 0, std::string("buffer.aligned.") + op, "data not aligned to " << align);
    std::string_view v = b;
    VH_CHECK(v == m.cur, std::string("buffer.content.") + op, "content " << vh::esc(v) << " expected " << vh::esc(m.cur));
    // the whole capacity is writable and readable: ASan is the oracle
    if (b.capacity() > 0) {
        auto* p = static_cast<volatile char*>(b.data());
        char c = p[b.capacity() - 1];
        p[b.capacity() - 1] = c;
    }
    m.sync();
}

static void history(vh::rng& r) {
    std::size_t align = std::size_t{1} << r.below(8);
    std::string tr;
    auto note = [&](std::string const& s) { tr += s + ";"; };
    model m;
    aligned_buffer b;
    switch (r.below(3)) {
        case 0: align = 1; note("new()"); break;
        case 1: { auto c = r.below(200); aligned_buffer x{c, align}; b = std::move(x); note("new(" + std::to_string(c) + "," + std::to_string(align) + ")"); break; }
        default: { auto s = r.bytes(r.below(100)); align = 1; aligned_buffer x{std::string_view{s}}; b = std::move(x); m.cur = s; note("new(sv" + std::to_string(s.size()) + ")"); break; }
    }
    verify(b, m, align, "init");
    auto n = 1 + r.below(14);
    for (std::size_t i = 0; i < n; ++i) {
        switch (r.below(9)) {
            case 0: case 1: {
                std::size_t sz = r.coin(20) ? b.capacity() : r.coin(20) ? b.size() : r.below(r.coin(10) ? 5000 : 300);
                note("resize" + std::to_string(sz));
                auto before = m.cur.size();
                b.resize(sz);
                VH_CHECK(b.size() == sz, "buffer.resize.size", tr << " size " << b.size());
                std::string_view v = b;
                std::string nv(v);
                auto keep = std::min(before, sz);
                VH_CHECK(std::string_view(nv).substr(0, keep) == std::string_view(m.cur).substr(0, keep), "buffer.resize.prefix",
                    tr << " lost the first " << keep << " bytes");
                for (std::size_t k = keep; k < sz; ++k) {
                    char l = k < m.last.size() ? m.last[k] : '\0';
                    VH_CHECK(nv[k] == '\0' || nv[k] == l, "buffer.resize.garbage", tr << " byte " << k << " is neither zero nor an earlier byte");
                }
                m.cur = nv;
                verify(b, m, align, "resize");
                break;
            }
            case 2: {
                note("fill");
                auto s = r.bytes(b.size());
                if (! s.empty()) std::memcpy(b.data(), s.data(), s.size());
                m.cur = s;
                verify(b, m, align, "fill");
                break;
            }
            case 3: {
                auto s = r.bytes(r.coin(20) ? b.capacity() : r.below(400));
                note("assign_sv" + std::to_string(s.size()));
                auto& x = b.assign(std::string_view{s});
                VH_CHECK(&x == &b, "buffer.assign.ref", "assign does not return itself");
                m.cur = s;
                s.assign(s.size(), 'x');  // the source may go away
                verify(b, m, align, "assign_sv");
                break;
            }
            case 4: {
                auto s = r.bytes(r.below(300));
                aligned_buffer o{r.below(300), std::size_t{1} << r.below(6)};
                o.resize(s.size());
                if (! s.empty()) std::memcpy(o.data(), s.data(), s.size());
                note("assign_buf" + std::to_string(s.size()));
                b.assign(o);
                VH_CHECK(std::string_view(o) == s, "buffer.assign.source", tr << " source changed");
                if (! s.empty()) std::memset(o.data(), '#', s.size());
                m.cur = s;
                verify(b, m, align, "assign_buf");
                break;
            }
            case 5: {
                note("shrink");
                b.shrink_to_fit();
                VH_CHECK(b.capacity() == b.size(), "buffer.shrink.capacity", tr << " capacity " << b.capacity() << " size " << b.size());
                m.last = m.cur;
                verify(b, m, align, "shrink");
                break;
            }
            case 6: {
                note("move");
                aligned_buffer o{std::move(b)};
                verify(o, m, align, "move");
                b = std::move(o);
                verify(b, m, align, "move_assign");
                break;
            }
            case 7: {
                // a view into the buffer itself
                auto off = r.below(m.cur.size() + 1);
                auto len = r.below(m.cur.size() - off + 1);
                note("assign_self" + std::to_string(off) + "+" + std::to_string(len));
                std::string exp = m.cur.substr(off, len);
                b.assign(std::string_view(b).substr(off, len));
                m.cur = exp;
                verify(b, m, align, "assign_self");
                break;
            }
            default: {
                aligned_buffer o{r.below(100), align};
                note("move_in" + std::to_string(o.capacity()));
                o.resize(r.below(o.capacity() + 1));
                model m2;
                m2.cur = std::string(std::string_view(o));
                VH_CHECK(m2.cur == std::string(m2.cur.size(), '\0'), "buffer.new.zero", tr << " a new buffer is not zero filled");
                b = std::move(o);
                m = m2;
                verify(b, m, align, "move_in");
                break;
            }
        }
    }
    vh::nontrivial(vh::hash(tr));
    vh::sample(tr);
}

static void arrays(vh::rng& r) {
    std::size_t align = std::size_t{1} << r.below(13);
    std::size_t size = r.coin(10) ? 0 : r.below(r.coin() ? 64 : 9000);
    auto p = utils::make_aligned_array<std::byte>(align, size);
    VH_CHECK(p.get() != nullptr, "array.null", "no memory for " << size << " align " << align);
    VH_CHECK(reinterpret_cast<std::uintptr_t>(p.get()) % align == 0, "array.aligned", "array of " << size << " not aligned to " << align);
    std::memset(p.get(), 0x5a, size);
    auto q = utils::make_aligned_array<std::byte>(align, size);
    std::memset(q.get(), 0xa5, size);
    for (std::size_t i = 0; i < size; ++i) VH_CHECK(p[i] == std::byte{0x5a}, "array.overlap", "arrays overlap");
    vh::nontrivial(vh::hash("a" + std::to_string(align) + "/" + std::to_string(size)));
}

int main(int argc, char** argv) {
    return vh::main(argc, argv, "c02", "operation histories (construct, fill, resize, assign, shrink, move) and (alignment,size) pairs; distinct by trace", [] {
        auto n = vh::scale(30000, 600000);
        for (std::size_t i = 0; i < n; ++i) {
            vh::rng r(vh::seed() * 7919 + i);
            vh::guarded("buffer", [&] { history(r); });
            if (i % 3 == 0) vh::guarded("array", [&] { arrays(r); });
        }
    });
}
