// Error information handed to clients: fields survive, supplemental text is valid JSON of all parts.
#include "vh.h"
#include <memory>
#include <nlohmann/json.hpp>
#include <jogasaki/api/impl/error_info.h>
#include <jogasaki/error/error_info.h>
using namespace vh;
using jogasaki::error_code;
using E = jogasaki::error::error_info;
namespace {
const int codes[] = {0, 1000, 2000, 2002, 2010, 2056, 3001, 4001, 4007, 50011, 50016};
const int sts[] = {0, 1, 5, -1, -10, -15, -27, -33, -10001};
std::string utf8(rng& r, std::size_t n) {
    std::string s;
    static const char* bits[] = {"a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xe3\x81\x82", "\xf0\x9f\x98\x80", "{", "}", ":", "'", ""};
    while (n-- > 0) { auto k = r.below(21); if (k == 20) s += '\0'; else s += bits[k]; }
    return s;
}
std::string any(rng& r, bool& valid) {
    if (r.coin(12)) { valid = false; std::string s = utf8(r, r.below(6)); s += static_cast<char>(0x80 + r.below(0x40)); s += utf8(r, r.below(6)); return s; }
    return utf8(r, r.coin(5) ? r.below(400) : r.below(12));
}
// an exactly sized block: reading past the end of the view is an error
struct view {
    std::unique_ptr<char[]> p; std::size_t n;
    explicit view(std::string const& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
    operator std::string_view() const { return {p.get(), n}; }
};
struct ref {
    error_code code{}; std::string msg, path, pos, stacks, add; jogasaki::status st{}; bool valid{true};
};
void same(E const& e, ref const& x, const char* where) {
    VH_CHECK(e.code() == x.code, "code", where);
    VH_CHECK(e.message() == x.msg, "message", where << " '" << esc(e.message()) << "'");
    VH_CHECK(e.status() == x.st, "status", where);
    VH_CHECK(e.source_file_path() == x.path && e.source_file_position() == x.pos, "source", where);
    VH_CHECK(e.additional_text() == x.add, "additional", where);
    VH_CHECK(static_cast<bool>(e) == (x.code != error_code::none), "bool", where);
    std::string sup{e.supplemental_text()};
    auto j = nlohmann::json::parse(sup, nullptr, false);
    VH_CHECK(j.is_object(), "supplemental.json", where << " not a JSON object: " << esc(sup));
    std::size_t keys = 1 + !x.add.empty() + !x.stacks.empty();
    VH_CHECK(j.size() == keys, "supplemental.keys", where << " " << esc(sup));
    auto val = [&](const char* k, std::string const& v) {
        VH_CHECK(j.contains(k) && j[k].is_string(), "supplemental.missing", where << " no " << k << " in " << esc(sup));
        if (x.valid) VH_CHECK(j[k].get<std::string>() == v, "supplemental.value", where << " " << k << "='" << esc(j[k].get<std::string>()) << "' expected '" << esc(v) << "'");
    };
    val("source_file", x.path + ":" + x.pos);
    if (!x.add.empty()) val("additional_text", x.add);
    if (!x.stacks.empty()) val("stacktrace", x.stacks);
    std::ostringstream os;
    os << e;
    std::ostringstream w;
    w << "error_info code:" << x.code << " status:" << x.st << " message:\"" << x.msg << "\" supplemental_text:\"" << sup << "\"";
    VH_CHECK(os.str() == w.str(), "print", where << " " << esc(os.str()));
}
void one(rng& r) {
    ref x;
    x.code = static_cast<error_code>(codes[r.below(11)]);
    x.msg = any(r, x.valid);
    x.valid = true;
    x.path = any(r, x.valid);
    x.pos = any(r, x.valid);
    if (r.coin()) x.stacks = any(r, x.valid);
    std::shared_ptr<E> e;
    {   // the views passed in need not outlive the call
        view m{x.msg}, p{x.path}, q{x.pos}, s{x.stacks};
        e = std::make_shared<E>(x.code, std::string_view{m}, std::string_view{p}, std::string_view{q}, std::string_view{s});
    }
    same(*e, x, "constructed");
    for (auto n = r.below(6); n > 0; --n) {
        switch (r.below(5)) {
            case 0: x.st = static_cast<jogasaki::status>(sts[r.below(9)]); e->status(x.st); break;
            case 1: {
                bool v = true;
                auto a = r.coin(20) ? std::string{} : any(r, v);
                x.add = a;
                if (!v) x.valid = false;
                e->additional_text(view{a});
                break;
            }
            case 2: { E c{*e}; same(c, x, "copied"); *e = E{}; VH_CHECK(!*e && e->message().empty() && e->supplemental_text().empty(), "cleared", "default error is not empty"); *e = c; break; }
            case 3: { E c{std::move(*e)}; same(c, x, "moved"); *e = std::move(c); break; }
            case 4: { auto c = std::make_shared<E>(*e); e = c; break; }
        }
        same(*e, x, "changed");
    }
    auto api = jogasaki::api::impl::error_info::create(e);
    VH_CHECK(api != nullptr, "api.null", "no wrapper");
    jogasaki::api::error_info const& a = *api;
    VH_CHECK(a.code() == e->code() && a.status() == e->status() && a.message() == e->message() && a.supplemental_text() == e->supplemental_text() && api->body() == e, "api.fields", "wrapper differs");
    std::ostringstream o1, o2;
    o1 << a; o2 << *e;
    VH_CHECK(o1.str() == o2.str(), "api.print", "wrapper prints " << esc(o1.str()));
    VH_CHECK(jogasaki::api::impl::error_info::create(nullptr) == nullptr, "api.create_null", "wrapper for nothing");
    nontrivial(hash(o1.str()));
    if (r.below(8000) == 0) sample(esc(o1.str()));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c14_errinfo", "errors with generated parts (quotes, controls, multi-byte, broken UTF-8), changed/copied/moved; distinct by printed form", [] {
        rng r(seed() * 37 + 14);
        for (std::size_t i = 0; i < scale(30000, 500000); ++i) guarded("case", [&] { one(r); });
    });
}
