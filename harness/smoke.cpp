#include "db.h"
#include <iostream>
#include <glog/logging.h>
using namespace dbx;
static void body() {
    vh::guarded("smoke", [] {
        engine e(vh::seed() % 2 ? 4 : 0);
        e.start();
        auto o = e.run(e.create_table("T0", {{"C0", fdesc{kind::int8, false}}, {"C1", fdesc{kind::character, true}}}, {{0, true}}));
        std::cerr << "create " << o.st << " " << o.message << "\n";
        auto ins = e.put("INSERT", [](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto p = env.schema.shared_storage_provider();
            auto t = p->find_table("T0");
            yugawara::binding::factory b{};
            std::vector<tr::details::values_row> rows;
            for (int i = 0; i < 3; ++i) {
                val a; a.null = false; a.i = i; val c; c.null = false; c.s = "x" + std::to_string(i);
                std::vector<eptr> x; x.push_back(literal(env, kind::int8, a)); x.push_back(literal(env, kind::character, c));
                rows.emplace_back(std::move(x));
            }
            auto pi = p->find_primary_index(*t);
            return std::make_unique<tst::write>(tr::write_kind::insert, b(*pi), std::vector<var>{b(t->columns()[0]), b(t->columns()[1])}, std::move(rows));
        });
        o = e.run(ins);
        std::cerr << "insert " << o.st << " " << o.message << "\n";
        auto q = e.put("SELECT", [](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto p = env.schema.shared_storage_provider();
            auto t = p->find_table("T0");
            auto pi = p->find_primary_index(*t);
            plan_builder pb{env};
            auto& ps = pb.process();
            auto a = pb.stream(sql_type({kind::int8})), c = pb.stream(sql_type({kind::character}));
            auto& s = ps.operators().emplace<tr::scan>(pb.b(*pi), std::vector<tr::scan::column>{{pb.b(t->columns()[0]), a}, {pb.b(t->columns()[1]), c}});
            auto& em = ps.operators().emplace<tr::emit>(std::vector<tr::emit::column>{{a, "A"}, {c, "B"}});
            s.output() >> em.input();
            return std::move(pb.stmt);
        });
        o = e.run(q);
        std::cerr << "select " << o.st << " " << o.message << "\n";
        for (auto& r : o.rows) std::cerr << dbx::show(r, o.kinds) << "\n";
    });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    if (getenv("V")) { FLAGS_logtostderr = true; FLAGS_minloglevel = 0; FLAGS_v = 100; }
    return vh::main(argc, argv, "smoke", "x", body);
}
