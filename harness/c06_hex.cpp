// Hexadecimal parsing and printing.
#include "vh.h"
#include <iomanip>
#include <memory>
#include <jogasaki/utils/binary_printer.h>
#include <jogasaki/utils/hex.h>
#include <jogasaki/utils/hex_to_octet.h>
using namespace vh;
using namespace jogasaki::utils;
namespace {
int dig(unsigned char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
void parse(std::string const& s, rng& r) {
    bool ok = s.size() % 2 == 0;
    std::string ref;
    for (std::size_t i = 0; ok && i < s.size(); i += 2) {
        int h = dig(s[i]), l = dig(s[i + 1]);
        if (h < 0 || l < 0) ok = false; else ref += static_cast<char>(h * 16 + l);
    }
    std::string out = r.bytes(r.below(30));  // leftovers
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    bool got = hex_to_octet({p.get(), s.size()}, out);
    VH_CHECK(got == ok, "parse.accept", "'" << esc(s) << "' accepted=" << got);
    if (ok) VH_CHECK(out == ref, "parse.value", "'" << esc(s) << "' -> '" << esc(out) << "'");
    nontrivial(hash(s));
}
template <class T> void num(T v, rng& r) {
    std::ostringstream os;
    auto mode = r.below(4);
    if (mode == 1) os << std::hex;
    if (mode == 2) os << std::oct << std::setfill('*');
    if (mode == 3) os << std::uppercase << std::setfill('#');
    auto fl = os.flags(); auto fi = os.fill();
    os << hex(v);
    VH_CHECK(os.flags() == fl && os.fill() == fi, "print.state", "stream formatting changed, mode " << mode);
    auto s = os.str();
    VH_CHECK(s.size() == sizeof(T) * 2, "print.width", "'" << s << "' for " << sizeof(T) << " bytes");
    std::uint64_t back = 0;
    for (char c : s) { VH_CHECK(dig(c) >= 0, "print.digit", s); back = back * 16 + dig(c); }
    VH_CHECK(back == static_cast<std::uint64_t>(static_cast<std::make_unsigned_t<T>>(v)), "print.value", "'" << s << "'");
    if (mode == 0) VH_CHECK(s.find_first_of("ABCDEF") == std::string::npos, "print.lower", s);
    os << "|" << std::setw(3) << 17;
    nontrivial(hash(s, sizeof(T)));
}
void bin(std::string const& s, rng& r) {
    std::size_t bpl = r.coin(60) ? 0 : 1 + r.below(20);
    bool hy = r.coin(), cpp = r.coin(25);
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    binary_printer bp{p.get(), s.size(), bpl};
    if (! hy || r.coin()) bp.show_hyphen(hy);
    if (cpp || r.coin()) bp.cpp_literal(cpp);
    std::ostringstream os;
    if (r.coin()) os << std::uppercase;
    bool up = (os.flags() & std::ios::uppercase) != 0;
    if (r.coin()) os << std::oct << std::setfill('?') << std::setprecision(3);
    auto fl = os.flags(); auto fi = os.fill(); auto pr = os.precision();
    os << bp;
    VH_CHECK(os.flags() == fl && os.fill() == fi && os.precision() == pr, "binary.state", "stream formatting changed");
    std::string ref;
    char b[8];
    for (std::size_t i = 0; i < s.size(); ++i) {
        auto c = static_cast<unsigned char>(s[i]);
        if (cpp) {
            if (c >= 0x20 && c < 0x7f) ref += (char) c;
            else { std::snprintf(b, sizeof b, up ? "%02X" : "%02x", c); ref += std::string("\\u00") + b; }
            continue;
        }
        if (i != 0) { if (hy) ref += '-'; if (bpl != 0 && i % bpl == 0) ref += '\n'; }
        std::snprintf(b, sizeof b, up ? "%02X" : "%02x", c);
        ref += b;
    }
    VH_CHECK(os.str() == ref, "binary.text", "'" << esc(os.str()) << "' expected '" << esc(ref) << "'");
    nontrivial(hash(ref, hy * 2 + cpp + bpl * 4));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c06_hex", "hex texts (all 65536 byte pairs, random with single damaged digits), integers of 16/32/64 bits, byte strings with all print options; distinct by content", [] {
        rng r(seed() * 17 + 6);
        for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) guarded("pair", [&] { parse(std::string{(char) a, (char) b}, r); });
        for (std::size_t i = 0; i < scale(60000, 2000000); ++i) guarded("parse", [&] {
            std::string s;
            for (auto n = r.below(40); n > 0; --n) s += "0123456789abcdefABCDEF"[r.below(22)];
            if (!s.empty() && r.coin(30)) s[r.below(s.size())] = r.coin() ? (char) r.next() : "/:@G`g"[r.below(6)];
            parse(s, r);
            if (i % 10000 == 1) sample("hex '" + esc(s) + "'");
        });
        for (std::size_t i = 0; i < scale(30000, 500000); ++i) guarded("num", [&] {
            num(r.edgy<std::int16_t>(), r); num(r.edgy<std::uint16_t>(), r); num(r.edgy<std::int32_t>(), r); num(r.edgy<std::uint32_t>(), r);
            num(r.edgy<std::int64_t>(), r); num(r.edgy<std::uint64_t>(), r);
        });
        for (std::size_t i = 0; i < scale(40000, 500000); ++i) guarded("bin", [&] { bin(r.bytes(r.below(i % 50 == 0 ? 600 : 40)), r); });
    });
}
