// Base64 against an independent bit-string model.
#include "vh.h"
#include <jogasaki/utils/base64_utils.h>
#include <memory>
using namespace vh;
using namespace jogasaki::utils;
namespace {
char const* alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref_encode(std::string const& s) {
    std::string out;
    for (std::size_t i = 0; i < s.size(); i += 3) {
        unsigned v = 0; int n = 0;
        for (int k = 0; k < 3; ++k) { v <<= 8; if (i + k < s.size()) { v |= static_cast<unsigned char>(s[i + k]); ++n; } }
        for (int k = 0; k < 4; ++k) out += k <= n ? alpha[(v >> (18 - 6 * k)) & 63U] : '=';
    }
    return out;
}
bool ref_valid(std::string const& s) {
    if (s.empty() || s.size() % 4 != 0) return false;
    std::size_t e = s.size();
    int pad = 0;
    while (e > 0 && s[e - 1] == '=' && pad < 2) { --e; ++pad; }
    for (std::size_t i = 0; i < e; ++i) if (s[i] == 0 || std::strchr(alpha, s[i]) == nullptr) return false;
    return true;
}
std::string exact_enc(std::string const& s) {
    // exact sized heap copy: reads beyond the input are caught
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    return encode_base64({p.get(), s.size()});
}
bool exact_is(std::string const& s) {
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    return is_base64({p.get(), s.size()});
}
std::string exact_dec(std::string const& s) {
    std::unique_ptr<char[]> p(new char[s.size()]);
    std::memcpy(p.get(), s.data(), s.size());
    return decode_base64({p.get(), s.size()});
}
void round(std::string const& s) {
    auto e = exact_enc(s);
    VH_CHECK(e == ref_encode(s), "encode", "'" << esc(s) << "' -> '" << esc(e) << "' expected '" << esc(ref_encode(s)) << "'");
    VH_CHECK(exact_dec(e) == s, "round_trip", "'" << esc(s) << "' -> '" << e << "' -> '" << esc(decode_base64(e)) << "'");
    VH_CHECK(exact_is(e) == !s.empty(), "is_base64", "own output rejected '" << e << "'");
    nontrivial(hash(s));
}
void valid(std::string const& s) {
    VH_CHECK(exact_is(s) == ref_valid(s), "is_base64", "'" << esc(s) << "' judged " << is_base64(s));
    if (ref_valid(s)) {
        auto d = exact_dec(s);
        std::size_t pad = s.size() - s.find_last_not_of('=') - 1;
        if (s.find_last_not_of('=') == std::string::npos) pad = s.size();
        if (pad <= 2) VH_CHECK(d.size() == s.size() / 4 * 3 - pad, "decode.size", "'" << s << "' decodes to " << d.size() << " bytes");
        // re-encoding gives the same up to the unused trailing bits
        auto e = ref_encode(d);
        auto keep = s.size() - pad - (pad != 0 ? 1 : 0);
        VH_CHECK(e.size() == s.size() && e.substr(0, keep) == s.substr(0, keep), "decode.value", "'" << s << "' re-encodes to '" << e << "'");
    }
    nontrivial(hash(s, 99));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c05_base64", "byte strings (all of length 0..2, random up to 4096) and candidate base64 texts (all 256 bytes at each position of each quartet, random edits); distinct by content", [] {
        rng r(seed() * 131);
        guarded("b", [] { round(""); });
        for (int a = 0; a < 256; ++a) {
            guarded("b1", [&] { round(std::string(1, (char) a)); });
            for (int b = 0; b < 256; ++b) guarded("b2", [&] { round(std::string{(char) a, (char) b}); });
        }
        for (std::size_t i = 0; i < scale(60000, 3000000); ++i) guarded("rand", [&] {
            auto n = r.coin(90) ? r.below(48) : r.below(4096);
            auto s = r.bytes(n);
            if (r.coin(15)) s.assign(n, (char) (r.coin() ? 0xff : 0));
            round(s);
            if (i % 10000 == 1) sample("'" + esc(s, 30) + "' -> " + encode_base64(s).substr(0, 40));
        });
        // validator: every byte at every position of short texts
        for (int q = 1; q <= 3; ++q) for (int pad = 0; pad <= 2; ++pad) for (int pos = 0; pos < q * 4; ++pos) for (int c = 0; c < 256; ++c) guarded("v", [&] {
            std::string s(q * 4, 'A');
            for (auto& x : s) x = alpha[r.below(64)];
            for (int k = 0; k < pad; ++k) s[s.size() - 1 - k] = '=';
            s[pos] = (char) c;
            valid(s);
        });
        for (std::size_t i = 0; i < scale(60000, 2000000); ++i) guarded("v2", [&] {
            std::string s = ref_encode(r.bytes(r.below(20)));
            switch (r.below(6)) {
                case 0: if (!s.empty()) s.pop_back(); break;
                case 1: s += '='; break;
                case 2: if (!s.empty()) s[r.below(s.size())] = '='; break;
                case 3: if (!s.empty()) s[r.below(s.size())] = (char) r.next(); break;
                case 4: s += "===="; break;
                default: s += ref_encode(r.bytes(1 + r.below(3))); break;
            }
            valid(s);
        });
    });
}
