// Character / binary values against std::string as the model.
#include "vh.h"
#include <cstdlib>
#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/data/binary_string_value.h>
#include <jogasaki/memory/paged_memory_resource.h>
#include <memory>
using namespace vh;
namespace {
// every allocation is its own malloc block, so an overrun hits an ASan red zone
class guard_resource : public jogasaki::memory::paged_memory_resource {
public:
    ~guard_resource() override { for (auto p : v_) std::free(p); }
    void end_current_page() override {}
    std::size_t bytes{}, count{};
protected:
    void* do_allocate(std::size_t b, std::size_t) override {
        auto* p = std::malloc(b == 0 ? 1 : b);
        std::memset(p, 0xEE, b);
        v_.push_back(p); bytes += b; ++count;
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(memory_resource const& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
    std::vector<void*> v_;
};
int sgn(int x) { return (x > 0) - (x < 0); }

template <class T> void check_value(T const& t, std::string const& m, char const* how) {
    std::string_view sv{t};
    VH_CHECK(sv == m, "content", how << ": expected '" << esc(m) << "' (" << m.size() << ") got '" << esc(sv) << "' (" << sv.size() << ")");
    VH_CHECK(t.size() == m.size(), "size", how << ": size " << t.size() << " for " << m.size());
    VH_CHECK(t.empty() == m.empty(), "empty", how << " size " << m.size());
    VH_CHECK(static_cast<bool>(t) == !m.empty(), "bool", how << " size " << m.size());
    VH_CHECK(static_cast<std::string>(t) == m, "to_string", how << " size " << m.size());
    std::ostringstream os;
    os << t;
    VH_CHECK(os.str() == (m.empty() ? std::string{"<empty>"} : m), "print", how << " printed '" << esc(os.str()) << "'");
}
template <class T> void check_pair(T const& a, T const& b, std::string const& ma, std::string const& mb) {
    // reference: bytes as unsigned, shorter first
    std::size_t n = std::min(ma.size(), mb.size());
    int ref = n == 0 ? 0 : std::memcmp(ma.data(), mb.data(), n);
    if (ref == 0) ref = ma.size() < mb.size() ? -1 : (ma.size() > mb.size() ? 1 : 0);
    ref = sgn(ref);
    auto d = [&] { return "'" + esc(ma) + "'(" + std::to_string(ma.size()) + ") vs '" + esc(mb) + "'(" + std::to_string(mb.size()) + ")"; };
    VH_CHECK(sgn(compare(a, b)) == ref, "order", d() << " compare " << compare(a, b) << " expected " << ref);
    VH_CHECK(sgn(compare(b, a)) == -ref, "order", d() << " reverse compare");
    VH_CHECK((a == b) == (ref == 0), "eq", d());
    VH_CHECK((a != b) == (ref != 0), "ne", d());
    VH_CHECK((a < b) == (ref < 0), "lt", d());
    VH_CHECK((a > b) == (ref > 0), "gt", d());
    VH_CHECK((a <= b) == (ref <= 0), "le", d());
    VH_CHECK((a >= b) == (ref >= 0), "ge", d());
    if (ref == 0) VH_CHECK(std::hash<T>{}(a) == std::hash<T>{}(b), "hash", d() << " equal values with different hashes");
}
std::size_t pick_len(rng& r) {
    switch (r.below(10)) {
        case 0: return 0;
        case 1: case 2: return r.range(13, 18);
        case 3: return r.range(125, 131);
        case 4: return r.range(253, 275);
        case 5: return r.range(505, 530);
        case 6: return r.coin(20) ? r.range(4090, 70000) : r.range(1, 40);
        default: return r.range(1, 40);
    }
}
std::string pick_content(rng& r, std::size_t n) {
    std::string s;
    switch (r.below(4)) {
        case 0: s = r.bytes(n); break;
        case 1: s.assign(n, static_cast<char>(r.coin() ? 0 : 0xff)); break;
        case 2: for (std::size_t i = 0; i < n; ++i) s += "ab\x7f\x80\0\xff"[r.below(6)]; break;
        default: s.assign(n, 'x'); break;
    }
    return s;
}
// a value close to m: same, one byte different, prefix, extension
std::string near(rng& r, std::string const& m) {
    std::string s = m;
    switch (r.below(5)) {
        case 0: break;
        case 1: if (!s.empty()) s[r.below(s.size())] ^= static_cast<char>(1 << r.below(8)); break;
        case 2: s.resize(r.below(s.size() + 1)); break;
        case 3: s += pick_content(r, 1 + r.below(4)); break;
        default: s += '\0'; break;
    }
    return s;
}
template <class T> void cases(char const* kind) {
    using traits = T;
    // exhaustive lengths around the short/long switch, every way of making a value
    auto make = [](guard_resource& g, std::string const& m, int how, std::vector<std::unique_ptr<std::string>>& keep) -> T {
        switch (how) {
            case 0: { // the source goes away after the construction
                auto tmp = std::make_unique<std::string>(m);
                T t{&g, tmp->data(), tmp->size()};
                std::fill(tmp->begin(), tmp->end(), '#');
                return t;
            }
            case 1: { std::string tmp{m}; T t{&g, std::string_view{tmp}}; std::fill(tmp.begin(), tmp.end(), '#'); return t; }
            case 2: { std::string tmp{m}; T s{tmp.data(), tmp.size()}; T t{&g, s}; std::fill(tmp.begin(), tmp.end(), '#'); return t; }
            case 3: { keep.push_back(std::make_unique<std::string>(m)); return T{keep.back()->data(), keep.back()->size()}; }
            case 4: { keep.push_back(std::make_unique<std::string>(m)); return T{std::string_view{*keep.back()}}; }
            default: { // concatenation of a split
                std::size_t k = m.size() == 0 ? 0 : (m.size() * 7 + how) % (m.size() + 1);
                std::string a = m.substr(0, k), b = m.substr(k);
                T ta{a.data(), a.size()}, tb{b.data(), b.size()};
                T t{&g, ta, tb};
                std::fill(a.begin(), a.end(), '#'); std::fill(b.begin(), b.end(), '#');
                return t;
            }
        }
    };
    rng r(seed() * 7919 + hash(kind));
    for (std::size_t n = 0; n <= scale(300, 1100); ++n) {
        guarded("lengths", [&] {
            std::vector<std::unique_ptr<std::string>> keep;
            guard_resource g;
            auto m = pick_content(r, n);
            for (int how = 0; how < 8; ++how) {
                T t = make(g, m, how, keep);
                T copy;
                std::memcpy(static_cast<void*>(&copy), &t, sizeof(T)); // promised trivially copyable
                T other{t};
                check_value(t, m, "constructed");
                check_value(copy, m, "memcpy'd");
                check_value(other, m, "copied");
                nontrivial(hash(m, n * 16 + how));
            }
        });
    }
    // exhaustive split concatenation
    for (std::size_t a = 0; a <= scale(36, 80); ++a) {
        for (std::size_t b = 0; b <= scale(36, 80); ++b) {
            guarded("concat", [&] {
                guard_resource g;
                auto ma = pick_content(r, a), mb = pick_content(r, b);
                guard_resource g1;
                T ta{&g1, ma}, tb{&g1, mb};
                T t{&g, ta, tb};
                check_value(t, ma + mb, "concatenated");
                check_value(ta, ma, "left operand");
                check_value(tb, mb, "right operand");
                T tt{&g, t, t};
                check_value(tt, ma + mb + ma + mb, "self concatenated");
                nontrivial(hash(ma + mb, a * 100 + b));
            });
        }
    }
    for (std::size_t i = 0; i < scale(60000, 1500000); ++i) {
        guarded("pairs", [&] {
            std::vector<std::unique_ptr<std::string>> keep;
            guard_resource g;
            auto ma = pick_content(r, pick_len(r));
            auto mb = r.coin(75) ? near(r, ma) : pick_content(r, pick_len(r));
            T a = make(g, ma, r.below(8), keep);
            T b = make(g, mb, r.below(8), keep);
            check_value(a, ma, "random");
            check_pair(a, b, ma, mb);
            check_pair(b, a, mb, ma);
            auto mc = near(r, mb);
            T c = make(g, mc, r.below(8), keep);
            check_pair(b, c, mb, mc);
            check_pair(a, c, ma, mc);
            check_value(a, ma, "after comparisons");
            nontrivial(hash(ma + "|" + mb));
            if (i % 20000 == 7) sample(std::string(kind) + " '" + esc(ma, 40) + "' vs '" + esc(mb, 40) + "'");
        });
    }
    T d{};
    check_value(d, "", "default");
    guarded("literals", [&] {
        check_value(T{""}, "", "literal");
        check_value(T{"a"}, "a", "literal");
        check_value(T{"a\0b"}, std::string{"a\0b", 3}, "literal");
        check_value(T{"0123456789abcde"}, "0123456789abcde", "literal");
        check_value(T{"0123456789abcdef"}, "0123456789abcdef", "literal");
        check_value(T{"a longer text which does not fit in the value itself"}, "a longer text which does not fit in the value itself", "literal");
    });
    event(std::string(kind) + "_values", st().evals);
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c01_text",
        "text/binary values built every possible way over lengths 0..300 (exhaustive) and random; a case is distinct by its bytes and construction",
        [] {
            cases<jogasaki::accessor::text>("text");
            cases<jogasaki::accessor::binary>("binary");
            rng r(seed());
            for (int i = 0; i < 2000; ++i) guarded("bsv", [&] {
                auto m = pick_content(r, pick_len(r));
                jogasaki::data::binary_string_value v{std::string_view{m}}, w{std::string{m}};
                VH_CHECK(v.str() == m && w.str() == m, "binary_string_value", esc(m));
                auto x = v; auto y = std::move(v);
                VH_CHECK(x.str() == m && y.str() == m, "binary_string_value", "copy/move " << esc(m));
            });
        });
}
