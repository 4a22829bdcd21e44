// Character boundary detection never looks outside the text it was given.
#include "vh.h"
#include <memory>
#include <jogasaki/utils/string_manipulation.h>
#include <jogasaki/utils/string_utils.h>
#include <jogasaki/utils/utf8_utils.h>
using namespace vh;
using namespace jogasaki::utils;
namespace {
using B = unsigned char;
bool cont(B b) { return b >= 0x80 && b <= 0xbf; }
// the structural rule of the SQL scanner: c2-df U | e0-ef U U | f0-f4 U U U
std::size_t len(std::string const& s, std::size_t i) {
    if (i >= s.size()) return 0;
    B a = s[i];
    std::size_t n = a < 0x80 ? 1 : a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0;
    if (n == 0 || i + n > s.size()) return 0;
    for (std::size_t k = 1; k < n; ++k) if (!cont(s[i + k])) return 0;
    return n;
}
void check(std::string_view v, std::string const& s) {
    std::size_t i = 0;
    bool ok = true;
    for (std::size_t k = 0; k <= s.size() + 1; ++k) {
        auto e = detect_next_encoding(v, k);
        VH_CHECK(get_byte(e) == len(s, k), "boundary", "'" << esc(s) << "' at " << k << " of " << s.size() << ": " << get_byte(e) << " bytes, expected " << len(s, k));
    }
    while (i < s.size()) { auto n = len(s, i); if (n == 0) { ok = false; break; } i += n; }
    VH_CHECK(is_valid_utf8(v) == ok, "valid", "'" << esc(s) << "' judged " << is_valid_utf8(v));
    for (B b : s) VH_CHECK(is_continuation_byte(b) == cont(b), "continuation", (int) b);
}
void one(std::string const& s) {
    // the text is a window: what follows it in memory looks like a continuation
    std::string buf = s + "\x80\xbf\x80\x80";
    check(std::string_view{buf.data(), s.size()}, s);
    // and an exact heap block
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    check(std::string_view{p.get(), s.size()}, s);
    nontrivial(hash(s));
}
void trim(std::string const& s, rng& r) {
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    std::string_view v{p.get(), s.size()};
    std::size_t b = 0, e = s.size();
    while (b < s.size() && s[b] == ' ') ++b;
    while (e > 0 && s[e - 1] == ' ') --e;
    VH_CHECK(ltrim(v) == s.substr(b), "ltrim", "'" << esc(s) << "'");
    VH_CHECK(rtrim(v) == s.substr(0, e), "rtrim", "'" << esc(s) << "'");
    auto q = r.coin() ? s.substr(0, r.below(s.size() + 1)) : r.bytes(r.below(3));
    if (r.coin(20)) q += (char) r.next();
    VH_CHECK(is_prefix(v, q) == (s.size() >= q.size() && s.compare(0, q.size(), q) == 0), "prefix", "'" << esc(s) << "' '" << esc(q) << "'");
    VH_CHECK(is_prefix(v, v) && is_prefix(v, ""), "prefix", esc(s));
    nontrivial(hash(s, 5));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c08_utf8", "all 1/2 byte texts, all 3..5 byte texts over boundary bytes, random; each as a window of a larger buffer and as an exact heap block; distinct by content", [] {
        rng r(seed() * 23 + 8);
        guarded("e", [] { one(""); });
        for (int a = 0; a < 256; ++a) { guarded("1", [&] { one(std::string(1, (char) a)); });
            for (int b = 0; b < 256; ++b) guarded("2", [&] { one(std::string{(char) a, (char) b}); }); }
        std::vector<int> rep{0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff};
        for (int a : rep) for (int b : rep) for (int c : rep) { guarded("3", [&] { one(std::string{(char) a, (char) b, (char) c}); });
            for (int d : rep) guarded("4", [&] { one(std::string{(char) a, (char) b, (char) c, (char) d}); }); }
        for (std::size_t i = 0; i < scale(40000, 2000000); ++i) guarded("r", [&] {
            std::string s;
            for (auto n = r.below(12); n > 0; --n) s += (char) (r.coin(30) ? r.next() : rep[r.below(rep.size())]);
            one(s);
            if (i % 8000 == 1) sample("'" + esc(s, 60) + "'");
            std::string t;
            for (auto n = r.below(10); n > 0; --n) t += " \t x\0\n"[r.below(6)];
            trim(t, r);
        });
    });
}
