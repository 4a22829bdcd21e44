// Scalar expressions evaluated by the engine against an independent interpreter of SQL semantics.
#include "exprtree.h"
#include "globals2.h"
#include <jogasaki/executor/expr/evaluator.h>
using namespace xt;
using namespace jogasaki;
namespace ex = jogasaki::executor::expr;
namespace {
memory::page_pool pool;

void tree(std::uint64_t seed, bool extreme) {
    vh::rng r(seed);
    world w;
    gen g(r, w);
    g.extreme = extreme;
    if (extreme) g.kinds = {kind::decimal, kind::float8, kind::int8};
    np n = g.make(extreme ? kind::boolean : r.pick(g.kinds), 1 + static_cast<int>(r.below(4)));
    memory::lifo_paged_memory_resource res(&pool);
    for (int round = 0; round < 3; ++round) {
        if (round > 0) for (auto& v : w.vars) v.v = g.literal(v.k);
        V want = eval(*n, w);
        yugawara::compiled_info info;
        for (auto& v : w.vars) info.bind(v.d, type_of(v.k));
        auto e = build(*n, w, info);
        tables t;
        t.fill(w);
        ex::evaluator ev{*e, info, t.host.get()};
        impl::variables_view view{t.list, 0};
        ex::evaluator_context ctx{&res};
        auto cp = res.get_checkpoint();
        {
            auto got = ev(ctx, view, &res);
            auto d = sv::differs(want, got);
            VH_CHECK(d.empty(), want.err != ek::none ? "error" : std::string{"value."} + std::string{meta::to_string_view(n->k)}, d << " by " << show(*n, w).substr(0, 600));
            VH_CHECK(!got.error() == ctx.errors().empty() || want.open || !got.error(), "diagnostics", show(*n, w).substr(0, 300));
            vh::event(want.open ? "results left open" : want.err != ek::none ? "error results" : want.v.null ? "null results" : "value results");
            vh::nontrivial(vh::hash(show(*n, w)));
        }
        if (n->k == kind::boolean) {
            // a condition holds only when it is true
            ex::evaluator_context c2{&res};
            auto got = ex::evaluate_bool(c2, ev, view, &res);
            V wb = want;
            if (want.ok() && want.v.null) wb = V::b(false);
            auto d = sv::differs(wb, got);
            VH_CHECK(d.empty(), "condition", d << " by " << show(*n, w).substr(0, 600));
            vh::event("conditions decided");
        }
        // the tables are only read
        for (auto& v : w.vars) {
            auto& tab = v.where == 2 ? *t.host : t.list[v.where];
            auto& vi = tab.info().at(v.d);
            fdesc f; f.k = v.k; f.nullable = true;
            auto x = rec::get(tab.store().ref(), *tab.meta(), vi.index(), f);
            VH_CHECK(sv::same(v.k, v.v.v, x), "operand changed", v.v.print());
        }
        res.deallocate_after(cp);
    }
}

// every operator on every pair of a table of edge values
void pairs(kind a, kind b) {
    vh::rng r(7);
    static std::vector<std::int64_t> ints{0, 1, -1, 2, -2, 10, 127, -128, 32767, -32768, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1,
        2147483648LL, -2147483649LL, 46341, 65536, 3037000500LL, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 9007199254740993LL};
    auto vals = [&](kind k) {
        std::vector<V> o{V::null(k)};
        using F = std::numeric_limits<float>;
        using L = std::numeric_limits<double>;
        switch (k) {
            case kind::int4: for (auto i : ints) if (i >= INT32_MIN && i <= INT32_MAX) o.push_back(V::i(k, i)); break;
            case kind::int8: for (auto i : ints) o.push_back(V::i(k, i)); break;
            case kind::float4: for (float d : {0.0F, -0.0F, 1.0F, -1.0F, 0.1F, F::max(), F::min(), F::denorm_min(), F::infinity(), -F::infinity(), F::quiet_NaN(), 16777216.0F}) o.push_back(V::d(k, d)); break;
            case kind::float8: for (double d : {0.0, -0.0, 1.0, -1.0, 0.1, L::max(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), 9007199254740992.0, 9.2e18}) o.push_back(V::d(k, d)); break;
            default: {
                for (auto i : {0, 1, -1, 10, 5}) for (auto e : {0, -2, 3, -37, 38, 300, 310, 400, -300, -310, -320, -400}) o.push_back(V::dec(rec::make_triple(i, e)));
                mpz_class top = rec::p10(38) - 1;
                for (auto e : {0, -38, -1, 1, 24576 - 37, -24575}) { o.push_back(V::dec(rec::make_triple(top, e))); o.push_back(V::dec(rec::make_triple(-top, e))); }
            }
        }
        return o;
    };
    auto va = vals(a), vb = vals(b);
    memory::lifo_paged_memory_resource res(&pool);
    for (auto o : {nk::add, nk::sub, nk::mul, nk::div, nk::rem, nk::eq, nk::ne, nk::lt, nk::le, nk::gt, nk::ge, nk::distinct, nk::not_distinct}) {
        bool fl = a == kind::float4 || a == kind::float8 || b == kind::float4 || b == kind::float8;
        if (o == nk::rem && fl) continue;
        for (auto& x : va) for (auto& y : vb) {
            world w;
            node n;
            n.n = o;
            n.k = static_cast<int>(o) >= static_cast<int>(nk::eq) ? kind::boolean : sv::promoted(a, b);
            for (auto* v : {&x, &y}) { auto l = std::make_unique<node>(); l->k = v->k; l->lit = *v; n.c.push_back(std::move(l)); }
            V want = eval(n, w);
            yugawara::compiled_info info;
            auto e = build(n, w, info);
            ex::evaluator ev{*e, info};
            ex::evaluator_context ctx{&res};
            auto got = ev(ctx, impl::variables_view{}, &res);
            auto d = sv::differs(want, got);
            VH_CHECK(d.empty(), want.err != ek::none ? "pair.error" : "pair.value", d << " by " << show(n, w));
            vh::event("edge pairs");
        }
    }
    for (auto& x : va) {
        world w;
        node n;
        n.n = nk::neg; n.k = a;
        auto l = std::make_unique<node>(); l->k = a; l->lit = x; n.c.push_back(std::move(l));
        yugawara::compiled_info info;
        auto e = build(n, w, info);
        ex::evaluator ev{*e, info};
        ex::evaluator_context ctx{&res};
        auto d = sv::differs(eval(n, w), ev(ctx, impl::variables_view{}, &res));
        VH_CHECK(d.empty(), "negation", d << " by " << show(n, w));
    }
}
}
static void body() {
        for (auto a : {kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal})
            for (auto b : {kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal})
                vh::guarded("pairs", [&] { pairs(a, b); });
        auto n = vh::scale(40000, 1500000);
        for (std::uint64_t i = 0; i < n; ++i) { auto s = vh::seed() * 1000003 + i; vh::guarded("tree:" + std::to_string(s), [&] { tree(s, false); }); }
        n = vh::scale(1500, 40000);
        for (std::uint64_t i = 0; i < n; ++i) { auto s = vh::seed() * 2000003 + i; vh::guarded("extreme:" + std::to_string(s), [&] { tree(s, true); }); }
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    FLAGS_minloglevel = 3;
    return vh::main(argc, argv, "c27_eval", "a tree is not trivial when its shape and operands were not seen before", body);
}
