// Signatures of user functions: argument patterns, kinds, versions, load statuses, call settings.
#include "vh.h"
#include <deque>
#include <jogasaki/udf/descriptor_impl.h>
#include <jogasaki/udf/plugin_api.h>
#include <jogasaki/udf/error_info.h>
#include <jogasaki/udf/udf_config.h>
#include <jogasaki/udf/generic_client_context.h>
using namespace plugin::udf;

static void patterns(vh::rng& r) {
    std::deque<column_descriptor_impl> cols;
    std::deque<std::string> names;
    std::vector<column_descriptor*> ptrs;
    std::string tr;
    auto n = r.below(8);
    std::size_t total = 1;
    for (std::size_t i = 0; i < n; ++i) {
        names.push_back("c" + std::to_string(i));
        std::optional<std::size_t> oneof;
        std::optional<std::string_view> on;
        bool p3 = false;
        if (r.coin(60)) {
            oneof = r.coin(90) ? r.below(4) : r.next();
            names.push_back("g" + std::to_string(*oneof));
            on = names.back();
            p3 = r.coin(30);
        } else {
            p3 = r.coin(5);
        }
        auto& nm = names[names.size() - (on ? 2 : 1)];
        auto kind = static_cast<type_kind>(r.below(18));
        cols.emplace_back(i, nm, kind, nullptr, oneof, on, p3);
        auto& c = cols.back();
        ptrs.push_back(&c);
        VH_CHECK((c.index() == i && c.column_name() == nm && c.type_kind() == kind && c.nested() == nullptr), "column.fields", "column attributes are not kept");
        VH_CHECK((c.has_oneof() == oneof.has_value() && c.oneof_index() == oneof && c.oneof_name() == on), "column.oneof", "oneof attributes are not kept");
        VH_CHECK((c.proto3_optional() == p3 && c.optional() == (p3 && oneof.has_value())), "column.optional", "optional flag wrong");
        tr += oneof ? std::to_string(*oneof % 100) + "," : "-,";
    }
    // expected: one choice per oneof group (at the place of its first member), all plain columns, declaration order
    std::vector<std::size_t> order;                     // group order
    std::map<std::size_t, std::vector<column_descriptor*>> groups;
    std::vector<std::vector<column_descriptor*>> want(1);
    for (auto* c : ptrs) if (c->has_oneof()) groups[*c->oneof_index()].push_back(c);
    std::set<std::size_t> seen;
    for (auto* c : ptrs) {
        if (! c->has_oneof()) { for (auto& w : want) w.push_back(c); continue; }
        if (! seen.insert(*c->oneof_index()).second) continue;
        std::vector<std::vector<column_descriptor*>> next;
        for (auto& w : want) for (auto* ch : groups[*c->oneof_index()]) { next.push_back(w); next.back().push_back(ch); }
        want = next;
    }
    for (auto& [k, g] : groups) total *= g.size();
    std::string rn = "rec";
    record_descriptor_impl rec{rn, ptrs};
    VH_CHECK((rec.columns() == ptrs && rec.record_name() == rn), "record.columns", "record keeps other columns");
    auto got = rec.argument_patterns();
    VH_CHECK(got.size() == total, "pattern.count", tr << " gives " << got.size() << " argument patterns, expected " << total);
    for (auto& p : got) {
        std::map<std::size_t, int> per;
        std::size_t plain = 0;
        for (auto* c : p) { if (c->has_oneof()) ++per[*c->oneof_index()]; else ++plain; }
        for (auto& [k, v] : per) VH_CHECK(v == 1, "pattern.oneof", tr << " a pattern takes " << v << " members of one oneof");
        VH_CHECK(per.size() == groups.size(), "pattern.group.missing", tr << " a pattern skips a oneof group");
    }
    auto a = got, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    VH_CHECK(a == b, "pattern.content", tr << " argument patterns are not one choice per oneof group in declaration order");
    VH_CHECK(got == want, "pattern.order", tr << " argument patterns are not listed with the choices of earlier groups varying slowest");
    vh::nontrivial(vh::hash(tr));
    vh::sample(tr + " -> " + std::to_string(total) + " patterns");
    // function, service, package
    std::deque<record_descriptor_impl> recs;
    auto fk = static_cast<function_kind>(r.below(4));
    std::string fn = "fn" + std::to_string(r.below(100));
    record_descriptor_impl out{"out", {}};
    VH_CHECK((out.argument_patterns().size() == 1 && out.argument_patterns()[0].empty()), "pattern.empty", "an empty record has other than one empty pattern");
    auto fi = r.below(100);
    function_descriptor_impl f{fi, fn, fk, &rec, &out};
    VH_CHECK((f.function_index() == fi && f.function_name() == fn && f.function_kind() == fk && &f.input_record() == &rec && &f.output_record() == &out), "function.fields", "function attributes are not kept");
    std::vector<function_descriptor*> fs{&f};
    service_descriptor_impl s{fi + 1, fn, fs};
    VH_CHECK((s.service_index() == fi + 1 && s.service_name() == fn && s.functions() == fs), "service.fields", "service attributes are not kept");
    package_version v{r.below(3), r.below(3), r.below(3)};
    std::vector<service_descriptor*> ss{&s};
    package_descriptor_impl p{"pk", "file.proto", v, ss};
    VH_CHECK((p.package_name() == "pk" && p.file_name() == "file.proto" && p.version() == v && p.services() == ss), "package.fields", "package attributes are not kept");
}

static void versions(vh::rng& r) {
    auto g = [&] { return package_version{r.coin(10) ? r.edgy<std::size_t>() : r.below(3), r.below(3), r.coin(10) ? r.edgy<std::size_t>() : r.below(3)}; };
    auto t = [](package_version const& v) { return std::make_tuple(v.major(), v.minor(), v.patch()); };
    auto a = g(), b = g(), c = g();
    VH_CHECK((a < b) == (t(a) < t(b)), "version.less", "version order is not lexicographic");
    VH_CHECK((a == b) == (t(a) == t(b)), "version.equal", "version equality wrong");
    if (a < b && b < c) VH_CHECK(a < c, "version.transitive", "version order is not transitive");
}

static void names() {
    static char const* kinds[] = {"float8", "float4", "int8", "uint8", "int4", "fixed8", "fixed4", "bool", "string", "group", "message", "bytes", "uint4", "enum", "sfixed4", "sfixed8", "sint4", "sint8"};
    std::set<std::string> seen;
    for (int i = 0; i < 18; ++i) {
        std::ostringstream os;
        os << static_cast<type_kind>(i);
        VH_EXPECT(os.str() == kinds[i], "kind.name", "type kind " << i << " prints as " << os.str());
        seen.insert(os.str());
        vh::done();
    }
    static char const* fks[] = {"unary", "client_streaming", "server_streaming", "bidirectional_streaming"};
    for (int i = 0; i < 4; ++i) {
        std::ostringstream os;
        os << static_cast<function_kind>(i);
        VH_EXPECT(os.str() == fks[i], "fkind.name", "function kind " << i << " prints as " << os.str());
    }
    using ls = load_status;
    struct row { ls s; char const* n; load_outcome o; };
    constexpr auto ok = load_outcome::ok, sk = load_outcome::skipped, fl = load_outcome::fail;
    row rows[] = {{ls::ok, "ok", ok}, {ls::path_is_empty, "path_is_empty", sk}, {ls::path_not_found, "path_not_found", fl},
        {ls::message_name_duplicated, "message_name_duplicated", sk}, {ls::no_ini_files, "no_ini_files", sk}, {ls::no_ini_and_so_files, "no_ini_and_so_files", sk},
        {ls::ini_so_pair_mismatch, "ini_so_pair_mismatch", sk}, {ls::ini_invalid, "ini_invalid", sk}, {ls::not_regular_file_or_dir, "not_regular_file_or_dir", sk},
        {ls::udf_disabled, "udf_disabled", sk}, {ls::deps_not_found, "deps_not_found", sk}, {ls::no_shared_objects_found, "no_shared_objects_found", sk},
        {ls::dlopen_failed, "dlopen_failed", fl}, {ls::descriptor_open_failed, "descriptor_open_failed", fl}, {ls::descriptor_parse_failed, "descriptor_parse_failed", fl},
        {ls::api_symbol_missing, "api_symbol_missing", fl}, {ls::api_init_failed, "api_init_failed", fl}, {ls::factory_symbol_missing, "factory_symbol_missing", fl},
        {ls::factory_creation_failed, "factory_creation_failed", fl}, {ls::rpc_name_duplicated, "rpc_name_duplicated", fl}};
    for (auto& x : rows) {
        VH_EXPECT(to_string_view(x.s) == x.n, "status.name", x.n << " prints as " << to_string_view(x.s));
        VH_EXPECT(classify(x.s) == x.o, "status.outcome", x.n << " is classified as " << classify(x.s));
        std::ostringstream os;
        os << x.s;
        VH_EXPECT(os.str() == x.n, "status.stream", x.n << " streams as " << os.str());
        vh::nontrivial(vh::hash(x.n));
        vh::done();
    }
    static char const* grpcs[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED",
        "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
    for (int i = 0; i < 17; ++i) {
        VH_EXPECT(to_string_view(static_cast<grpc::StatusCode>(i)) == grpcs[i], "grpc.name", grpcs[i] << " prints as " << to_string_view(static_cast<grpc::StatusCode>(i)));
        vh::done();
    }
}

static void settings(vh::rng& r) {
    std::string ep = "dns:///h" + std::to_string(r.below(1000)), tp = r.coin() ? "stream" : "unix";
    bool en = r.coin(), se = r.coin();
    std::optional<std::string> ge;
    std::optional<std::size_t> to;
    if (r.coin()) ge = "g" + std::to_string(r.below(10));
    if (r.coin()) to = r.edgy<std::size_t>();
    udf_config c{en, ep, tp, se, ge, to};
    auto d = c;
    udf_config e{};
    e = std::move(c);
    for (auto* x : {&d, &e}) VH_CHECK((x->enabled() == en && x->endpoint() == ep && x->transport() == tp && x->secure() == se && x->grpc_server_endpoint() == ge && x->timeout() == to), "config.fields", "configuration values are not kept");
    load_result l{load_status::ok, ep, tp};
    l.set_status(load_status::dlopen_failed);
    l.set_file("f" + ep);
    l.set_detail("d" + ep);
    VH_CHECK((l.status() == load_status::dlopen_failed && l.file() == "f" + ep && l.detail() == "d" + ep), "load_result.fields", "load result values are not kept");
    error_info ei{static_cast<grpc::StatusCode>(r.below(17)), ep};
    auto e2 = ei;
    VH_CHECK((e2.code() == ei.code() && e2.message() == ep), "error.fields", "error values are not kept");
}

static void deadlines(vh::rng& r) {
    generic_client_context c;
    VH_CHECK(! c.timeout().has_value(), "ctx.default", "a new call context has a timeout");
    auto none = c.grpc_context().deadline();
    c.timeout(std::nullopt);
    VH_CHECK(c.grpc_context().deadline() == none, "ctx.none", "no timeout changes the deadline");
    auto ms = std::chrono::milliseconds(1 + r.below(1000000));
    auto lo = std::chrono::system_clock::now();
    c.timeout(ms);
    auto hi = std::chrono::system_clock::now();
    VH_CHECK(c.timeout() == ms, "ctx.timeout", "timeout is not kept");
    auto d = c.grpc_context().deadline();
    VH_CHECK((d >= lo + ms - std::chrono::milliseconds(2) && d <= hi + ms + std::chrono::milliseconds(2)), "ctx.deadline", "the call deadline is not now + " << ms.count() << "ms");
    VH_CHECK(! c.is_debug_enabled(), "ctx.debug", "debug is on by default");
    c.debug_enabled(true);
    VH_CHECK(c.is_debug_enabled(), "ctx.debug", "debug switch is not kept");
}

int main(int argc, char** argv) {
    return vh::main(argc, argv, "c10", "generated signatures (columns, oneof groups), versions, all status and kind values, call settings; distinct by signature shape", [] {
        auto n = vh::scale(20000, 400000);
        vh::guarded("names", [&] { names(); });
        for (std::size_t i = 0; i < n; ++i) {
            vh::rng r(vh::seed() * 15485863 + i);
            vh::guarded("patterns", [&] { patterns(r); });
            vh::guarded("versions", [&] { versions(r); });
            if (i % 20 == 0) vh::guarded("settings", [&] { settings(r); });
            if (i % 200 == 0) vh::guarded("deadlines", [&] { deadlines(r); });
        }
    });
}
