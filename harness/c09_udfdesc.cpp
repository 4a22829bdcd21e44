// Descriptor files of user functions: every RPC and message is reported, duplicates are flagged, broken files are isolated.
#include "vh.h"
#include <filesystem>
#include <google/protobuf/descriptor.pb.h>
#include <jogasaki/udf/descriptor/descriptor_analyzer.h>
#include <jogasaki/udf/descriptor/descriptor_reader.h>
#include <jogasaki/udf/descriptor/validation/message_duplicate_validator.h>
#include <jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h>
namespace fs = std::filesystem;
namespace gp = google::protobuf;
using namespace jogasaki::udf::descriptor;

struct expected {
    std::vector<std::array<std::string, 4>> rpcs;  // proto, service, method, path
    std::map<std::string, std::set<std::string>> def, ref;
};

static void gen_msg(vh::rng& r, gp::DescriptorProto& m, std::string const& prefix, std::string const& file, expected& e,
    std::vector<std::string> const& types, int depth) {
    m.set_name(std::string(1, static_cast<char>('A' + r.below(5))) + (r.coin(50) ? std::string("x") : std::string{}));
    std::string full = prefix + "." + m.name();
    e.def[full].insert(file);
    auto nf = r.below(4);
    for (std::size_t i = 0; i < nf; ++i) {
        auto* f = m.add_field();
        f->set_name("f" + std::to_string(i));
        f->set_number(static_cast<int>(i) + 1);
        if (r.coin(40)) {
            f->set_type(gp::FieldDescriptorProto::TYPE_MESSAGE);
            auto t = r.pick(types);
            if (! t.empty()) {
                f->set_type_name(t);
                e.ref[t[0] == '.' ? t : "." + t].insert(file);
            }
        } else {
            f->set_type(r.coin() ? gp::FieldDescriptorProto::TYPE_INT32 : gp::FieldDescriptorProto::TYPE_ENUM);
            if (f->type() == gp::FieldDescriptorProto::TYPE_ENUM) f->set_type_name(".E");
        }
    }
    if (depth < 3) {
        auto nn = r.below(3);
        for (std::size_t i = 0; i < nn; ++i) gen_msg(r, *m.add_nested_type(), full, file, e, types, depth + 1);
    }
}

static void one(vh::rng& r, fs::path const& dir) {
    expected e;
    std::vector<fs::path> files;
    std::vector<std::pair<fs::path, plugin::udf::descriptor_read_status>> broken;
    std::vector<std::string> types{".p.A", "p.A", ".A", "B", ".p.q.Bx", "google.protobuf.Empty", ".p.A.B", ""};
    std::vector<std::string> pkgs{"", "p", "p.q", "tsurugidb.udf"};
    auto n = 1 + r.below(5);
    std::string tr;
    for (std::size_t i = 0; i < n; ++i) {
        auto path = dir / ("f" + std::to_string(i) + ".desc.pb");
        fs::remove_all(path);
        files.push_back(path);
        auto kind = r.below(10);
        if (kind == 0) {
            broken.emplace_back(path, plugin::udf::descriptor_read_status::descriptor_open_failed);
            tr += "missing;";
            continue;
        }
        gp::FileDescriptorSet fds;
        expected mine;
        auto nf = r.below(4);
        for (std::size_t k = 0; k < nf; ++k) {
            auto* f = fds.add_file();
            f->set_name(r.coin(15) ? "common.proto" : "f" + std::to_string(i) + "_" + std::to_string(k) + ".proto");
            auto pkg = r.pick(pkgs);
            if (! pkg.empty()) f->set_package(pkg);
            std::string prefix = pkg.empty() ? "" : "." + pkg;
            auto nm = r.below(4);
            for (std::size_t m = 0; m < nm; ++m) gen_msg(r, *f->add_message_type(), prefix, f->name(), mine, types, 0);
            auto ns = r.below(3);
            for (std::size_t s = 0; s < ns; ++s) {
                auto* sv = f->add_service();
                sv->set_name("S" + std::to_string(r.below(3)));
                auto nmeth = r.below(4);
                for (std::size_t q = 0; q < nmeth; ++q) {
                    auto* m = sv->add_method();
                    m->set_name("m" + std::to_string(r.below(r.coin(50) ? 1000 : 12)));
                    for (int io = 0; io < 2; ++io) {
                        auto t = r.pick(types);
                        if (io == 0) m->set_input_type(t); else m->set_output_type(t);
                        if (! t.empty()) mine.ref[t[0] == '.' ? t : "." + t].insert(f->name());
                    }
                    mine.rpcs.push_back({f->name(), sv->name(), m->name(), "/" + (pkg.empty() ? std::string{} : pkg + ".") + sv->name() + "/" + m->name()});
                }
            }
        }
        auto bytes = fds.SerializeAsString();
        if (kind == 1) {
            // really unparsable: a truncated length-delimited field
            bytes += std::string("\x0a\xff\x7f", 3);
            broken.emplace_back(path, plugin::udf::descriptor_read_status::descriptor_parse_failed);
            tr += "garbage;";
        } else {
            for (auto& x : mine.rpcs) e.rpcs.push_back(x);
            for (auto& [k, v] : mine.def) e.def[k].insert(v.begin(), v.end());
            for (auto& [k, v] : mine.ref) e.ref[k].insert(v.begin(), v.end());
            tr += "ok" + std::to_string(nf) + ";";
        }
        std::ofstream(path, std::ios::binary) << bytes;
        gp::FileDescriptorSet back;
        auto st = read_file_descriptor_set(path, back);
        VH_CHECK((kind == 1) == (st == plugin::udf::descriptor_read_status::descriptor_parse_failed), "read.status", "status " << static_cast<int>(st) << " for file kind " << kind);
        if (kind != 1) VH_CHECK(back.SerializeAsString() == bytes, "read.content", "the descriptor set read differs from the file");
    }
    auto res = analyze_descriptors(files);
    VH_CHECK(res.has_error() == ! broken.empty(), "analyze.has_error", tr);
    VH_CHECK(res.errors().size() == broken.size(), "analyze.errors", tr << res.errors().size() << " errors, expected " << broken.size());
    for (std::size_t i = 0; i < broken.size(); ++i) {
        VH_CHECK((res.errors()[i].path == broken[i].first && res.errors()[i].status == broken[i].second), "analyze.error.detail", tr << " error " << i << " does not name the broken file and reason");
    }
    auto key = [](auto& v) { std::sort(v.begin(), v.end()); };
    std::vector<std::array<std::string, 4>> got;
    for (auto& m : res.rpc_methods()) got.push_back({m.proto_file_name, m.service_name, m.method_name, m.full_rpc_path});
    auto want = e.rpcs;
    bool same_order = got == want;
    key(got);
    key(want);
    VH_CHECK(got == want, "analyze.rpcs", tr << got.size() << " rpc entries, expected " << want.size() << " with other content");
    VH_CHECK(same_order, "analyze.order", tr << "rpc entries are not in file order");
    std::map<std::string, std::set<std::string>> d, f;
    for (auto& [k, v] : res.message_info()) {
        if (! v.defining_protos.empty()) d[k] = v.defining_protos;
        if (! v.referring_protos.empty()) f[k] = v.referring_protos;
    }
    VH_CHECK(d == e.def, "analyze.definitions", tr << "message definitions differ (" << d.size() << " vs " << e.def.size() << ")");
    VH_CHECK(f == e.ref, "analyze.references", tr << "message references differ (" << f.size() << " vs " << e.ref.size() << ")");
    // duplicates
    auto dup = validation::filter_message_definition_duplicates(res.message_info());
    for (auto& [k, v] : e.def) {
        bool is = dup.count(k) != 0;
        VH_CHECK(is == (v.size() > 1), "dup.message", tr << k << " defined by " << v.size() << " files, flagged " << is);
        if (is) VH_CHECK(dup[k].defining_protos == v, "dup.message.files", k << " flagged with other files");
        if (is && e.ref.count(k)) VH_CHECK(dup[k].referring_protos == e.ref[k], "dup.message.refs", k << " flagged with other referring files");
    }
    for (auto& [k, v] : dup) VH_CHECK(e.def.count(k) != 0, "dup.message.invented", k << " flagged though never defined");
    std::set<std::string> names;
    bool dupm = false;
    for (auto& x : e.rpcs) dupm |= ! names.insert(x[2]).second;
    auto st = validation::validate_rpc_method_duplicates(res.rpc_methods());
    VH_CHECK((st == plugin::udf::rpc_duplicate_check_status::rpc_name_duplicated) == dupm, "dup.rpc", tr << "duplicate rpc names present " << dupm << " but reported " << static_cast<int>(st));
    vh::event(dupm ? "rpc_duplicates" : "rpc_unique");
    vh::event("broken_files", broken.size());
    vh::event("message_duplicates", dup.size());
    vh::nontrivial(vh::hash(tr + std::to_string(e.rpcs.size()) + "/" + std::to_string(e.def.size()) + "/" + std::to_string(e.ref.size()) + "/" + std::to_string(dup.size())));
    vh::sample(tr + " rpcs=" + std::to_string(e.rpcs.size()) + " messages=" + std::to_string(e.def.size()) + " duplicates=" + std::to_string(dup.size()));
}

int main(int argc, char** argv) {
    return vh::main(argc, argv, "c09", "sets of generated descriptor files (packages, nesting, services, broken files); distinct by shape", [] {
        char t[] = "/tmp/vh_c09_XXXXXX";
        fs::path dir = mkdtemp(t);
        auto n = vh::scale(2500, 40000);
        for (std::size_t i = 0; i < n; ++i) {
            vh::rng r(vh::seed() * 104729 + i);
            vh::guarded("desc", [&] { one(r, dir); });
        }
        fs::remove_all(dir);
    });
}
