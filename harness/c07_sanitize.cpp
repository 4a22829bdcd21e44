// Text handed to clients and logs: only well-formed printable output, nothing lost.
#include "vh.h"
#include <memory>
#include <jogasaki/utils/convert_control_characters.h>
#include <jogasaki/utils/sanitize_utf8.h>
using namespace vh;
using namespace jogasaki::utils;
namespace {
using B = unsigned char;
// Unicode 15, table 3-7: length of the well-formed sequence at i, 0 if none
std::size_t wf(std::string const& s, std::size_t i) {
    auto at = [&](std::size_t k) -> int { return i + k < s.size() ? static_cast<B>(s[i + k]) : -1; };
    auto in = [&](std::size_t k, int lo, int hi) { return at(k) >= lo && at(k) <= hi; };
    int a = at(0);
    if (a <= 0x7f) return 1;
    if (a >= 0xc2 && a <= 0xdf) return in(1, 0x80, 0xbf) ? 2 : 0;
    if (a >= 0xe0 && a <= 0xef) {
        int lo = a == 0xe0 ? 0xa0 : 0x80, hi = a == 0xed ? 0x9f : 0xbf;
        return in(1, lo, hi) && in(2, 0x80, 0xbf) ? 3 : 0;
    }
    if (a >= 0xf0 && a <= 0xf4) {
        int lo = a == 0xf0 ? 0x90 : 0x80, hi = a == 0xf4 ? 0x8f : 0xbf;
        return in(1, lo, hi) && in(2, 0x80, 0xbf) && in(3, 0x80, 0xbf) ? 4 : 0;
    }
    return 0;
}
std::string ref(std::string const& s) {
    std::string o;
    char b[8];
    auto e = [&](B c) { std::snprintf(b, sizeof b, "\\x{%02x}", c); o += b; };
    for (std::size_t i = 0; i < s.size();) {
        auto n = wf(s, i);
        if (n == 0) { e(s[i]); ++i; continue; }
        bool ctrl = (n == 1 && (static_cast<B>(s[i]) < 0x20 || static_cast<B>(s[i]) == 0x7f)) ||
            (n == 2 && static_cast<B>(s[i]) == 0xc2 && static_cast<B>(s[i + 1]) < 0xa0);
        for (std::size_t k = 0; k < n; ++k) if (ctrl) e(s[i + k]); else o += s[i + k];
        i += n;
    }
    return o;
}
void one(std::string const& s) {
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    auto o = sanitize_utf8({p.get(), s.size()});
    VH_CHECK(o == ref(s), "sanitize", "'" << esc(s) << "' -> '" << esc(o) << "' expected '" << esc(ref(s)) << "'");
    for (std::size_t i = 0; i < o.size();) {
        auto n = wf(o, i);
        VH_CHECK(n != 0, "output.ill_formed", "'" << esc(s) << "' -> '" << esc(o) << "'");
        VH_CHECK(n != 1 || (static_cast<B>(o[i]) >= 0x20 && static_cast<B>(o[i]) != 0x7f), "output.control", esc(o));
        i += n;
    }
    VH_CHECK(sanitize_utf8(o) == o, "idempotent", esc(o));
    auto c = convert_control_characters({p.get(), s.size()});
    std::string rc;
    for (B x : s) if (x < 0x20) rc += '!'; else if (x < 0x80) rc += static_cast<char>(x);
    VH_CHECK(c == rc, "control", "'" << esc(s) << "' -> '" << esc(c) << "'");
    nontrivial(hash(s));
}
void utf8(std::string& s, std::uint32_t c) {
    if (c < 0x80) s += (char) c;
    else if (c < 0x800) { s += (char) (0xc0 | c >> 6); s += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char) (0xe0 | c >> 12); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
    else { s += (char) (0xf0 | c >> 18); s += (char) (0x80 | (c >> 12 & 63)); s += (char) (0x80 | (c >> 6 & 63)); s += (char) (0x80 | (c & 63)); }
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c07_sanitize", "all 1 and 2 byte strings, all 3 and 4 byte strings over boundary bytes, every code point, random mixtures; distinct by content", [] {
        rng r(seed() * 19 + 7);
        guarded("e", [] { one(""); });
        for (int a = 0; a < 256; ++a) { guarded("1", [&] { one(std::string(1, (char) a)); });
            for (int b = 0; b < 256; ++b) guarded("2", [&] { one(std::string{(char) a, (char) b}); }); }
        std::vector<int> rep{0x00, 0x1f, 0x20, 0x41, 0x5c, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xfe, 0xff};
        for (int a : rep) for (int b : rep) for (int c : rep) guarded("3", [&] { one(std::string{(char) a, (char) b, (char) c}); });
        std::vector<int> rep4{0x41, 0x0a, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5};
        for (int a : rep4) for (int b : rep4) for (int c : rep4) for (int d : rep4) guarded("4", [&] { one(std::string{(char) a, (char) b, (char) c, (char) d}); });
        std::size_t stepv = thorough() ? 1 : 37;
        for (std::uint32_t c = r.below(stepv); c < 0x110800; c += stepv) guarded("cp", [&] { std::string s; utf8(s, c); one(s); });
        for (std::size_t i = 0; i < scale(40000, 2000000); ++i) guarded("mix", [&] {
            std::string s;
            for (auto n = r.below(14); n > 0; --n) switch (r.below(5)) {
                case 0: s += (char) r.next(); break;
                case 1: s += (char) (0x20 + r.below(95)); break;
                case 2: utf8(s, r.below(0x110000)); break;
                case 3: utf8(s, r.below(0x110000)); if (!s.empty()) s.pop_back(); break;
                default: s += (char) rep[r.below(rep.size())]; break;
            }
            one(s);
            if (i % 8000 == 1) sample("'" + esc(s, 60) + "'");
        });
    });
}
