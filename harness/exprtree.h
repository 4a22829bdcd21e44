// Random typed expression trees: built as the engine's input and interpreted by the model in sqlval.h.
#pragma once
#include "sqlval.h"
#include <takatori/scalar/binary.h>
#include <takatori/scalar/cast.h>
#include <takatori/scalar/coalesce.h>
#include <takatori/scalar/compare.h>
#include <takatori/scalar/conditional.h>
#include <takatori/scalar/immediate.h>
#include <takatori/scalar/unary.h>
#include <takatori/scalar/variable_reference.h>
#include <takatori/type/boolean.h>
#include <takatori/type/character.h>
#include <takatori/type/date.h>
#include <takatori/type/decimal.h>
#include <takatori/type/float.h>
#include <takatori/type/int.h>
#include <takatori/type/octet.h>
#include <takatori/type/time_of_day.h>
#include <takatori/type/time_point.h>
#include <takatori/type/unknown.h>
#include <takatori/value/boolean.h>
#include <takatori/value/character.h>
#include <takatori/value/date.h>
#include <takatori/value/decimal.h>
#include <takatori/value/float.h>
#include <takatori/value/int.h>
#include <takatori/value/octet.h>
#include <takatori/value/time_of_day.h>
#include <takatori/value/time_point.h>
#include <takatori/value/unknown.h>
#include <yugawara/compiled_info.h>
#include <jogasaki/executor/process/impl/variable_table.h>
#include <jogasaki/executor/process/impl/variables_view.h>

namespace xt {
using sv::V;
using sv::ek;
using rec::kind;
using rec::fdesc;
using rec::val;
namespace tt = takatori::type;
namespace tv = takatori::value;
namespace ts = takatori::scalar;
using ptr = std::unique_ptr<ts::expression>;
using typ = std::shared_ptr<tt::data const>;

inline typ type_of(kind k) {
    switch (k) {
        case kind::boolean: return std::make_shared<tt::boolean>();
        case kind::int4: return std::make_shared<tt::int4>();
        case kind::int8: return std::make_shared<tt::int8>();
        case kind::float4: return std::make_shared<tt::float4>();
        case kind::float8: return std::make_shared<tt::float8>();
        case kind::decimal: return std::make_shared<tt::decimal>();
        case kind::character: return std::make_shared<tt::character>(tt::varying);
        case kind::octet: return std::make_shared<tt::octet>(tt::varying);
        case kind::date: return std::make_shared<tt::date>();
        case kind::time_of_day: return std::make_shared<tt::time_of_day>();
        case kind::time_point: return std::make_shared<tt::time_point>();
        default: std::abort();
    }
}
inline std::shared_ptr<tv::data const> value_of(kind k, val const& v) {
    if (v.null) return std::make_shared<tv::unknown>();
    switch (k) {
        case kind::boolean: return std::make_shared<tv::boolean>(v.i != 0);
        case kind::int4: return std::make_shared<tv::int4>(static_cast<std::int32_t>(v.i));
        case kind::int8: return std::make_shared<tv::int8>(v.i);
        case kind::float4: return std::make_shared<tv::float4>(static_cast<float>(v.d));
        case kind::float8: return std::make_shared<tv::float8>(v.d);
        case kind::decimal: return std::make_shared<tv::decimal>(v.t);
        case kind::character: return std::make_shared<tv::character>(v.s);
        case kind::octet: return std::make_shared<tv::octet>(v.s);
        case kind::date: return std::make_shared<tv::date>(rec::date{v.i});
        case kind::time_of_day: return std::make_shared<tv::time_of_day>(rec::time_of_day{std::chrono::nanoseconds{v.i}});
        case kind::time_point: return std::make_shared<tv::time_point>(rec::mk_tp(v));
        default: std::abort();
    }
}

enum class nk { lit, var, neg, plus, lnot, is_null, is_true, is_false, is_unknown, add, sub, mul, div, rem, concat, land, lor,
    eq, ne, lt, le, gt, ge, distinct, not_distinct, cond, coalesce, cast };
struct node {
    nk n{nk::lit};
    kind k{kind::int4};
    V lit{};
    std::size_t var{};
    std::vector<std::unique_ptr<node>> c{};
};
using np = std::unique_ptr<node>;

struct variable { kind k; std::size_t where; takatori::descriptor::variable d; V v; };   // where: 0 current block, 1 other block, 2 host

struct world {
    std::vector<variable> vars{};
};

inline std::string show(node const& n, world const& w) {
    static char const* names[] = {"lit", "var", "-", "+", "NOT", "IS NULL", "IS TRUE", "IS FALSE", "IS UNKNOWN", "+", "-", "*", "/", "%", "||", "AND", "OR",
        "=", "<>", "<", "<=", ">", ">=", "IS DISTINCT FROM", "IS NOT DISTINCT FROM", "CASE", "COALESCE", "CAST"};
    if (n.n == nk::lit) return n.lit.print();
    if (n.n == nk::var) return "v" + std::to_string(n.var) + "{" + w.vars[n.var].v.print() + "}";
    std::string s = "(";
    s += names[static_cast<int>(n.n)];
    for (auto& c : n.c) s += " " + show(*c, w);
    return s + ")";
}

class gen {
public:
    gen(vh::rng& r, world& w) : r_(r), w_(w) {}
    std::vector<kind> kinds{kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point, kind::boolean};
    std::vector<kind> nums{kind::int4, kind::int8, kind::float4, kind::float8, kind::decimal};
    // wide exponents are left to a phase of their own
    bool extreme = false;
    bool closed = false;        // no variables beyond those of the world
    V literal(kind k) {
        fdesc f; f.k = k; f.nullable = true;
        f.varying = true;
        if (k == kind::character || k == kind::octet) f.len = 12;
        if (sv::is_num(k) && r_.coin(40)) {     // small numbers meet more often
            auto x = r_.range(-4, 4);
            if (k == kind::float4 || k == kind::float8) return V::d(k, static_cast<double>(x) / 2);
            if (k == kind::decimal) return V::dec(rec::make_triple(mpz_class(static_cast<long>(x * r_.range(1, 10))), static_cast<std::int32_t>(r_.range(-2, 1))));
            return V::i(k, x);
        }
        auto v = rec::rand_val(r_, f, 18);
        if (k == kind::decimal && !v.null && extreme)
            v.t = rec::make_triple(rec::coeff(v.t), static_cast<std::int32_t>(r_.coin() ? r_.range(-500, 500) : r_.coin() ? r_.range(-24575 + 40, -24000) : r_.range(24000, 24539)));
        return V::of(k, v);
    }
    np leaf(kind k) {
        auto n = std::make_unique<node>();
        n->k = k;
        if (r_.coin(50)) {
            std::vector<std::size_t> have;
            for (std::size_t i = 0; i < w_.vars.size(); ++i) if (w_.vars[i].k == k) have.push_back(i);
            if (!have.empty() && (closed || have.size() > 3 || r_.coin(60))) n->var = r_.pick(have);
            else if (closed) { n->lit = literal(k); return n; }
            else {
                struct obj : takatori::descriptor::object {};
                n->var = w_.vars.size();
                w_.vars.push_back({k, r_.below(3), takatori::descriptor::variable{std::make_shared<obj>()}, literal(k)});
            }
            n->n = nk::var;
            return n;
        }
        n->lit = literal(k);
        return n;
    }
    np make(kind k, int depth) {
        if (depth <= 0) return leaf(k);
        auto n = std::make_unique<node>();
        n->k = k;
        if (r_.coin(12)) {          // conditional or coalesce of alternatives of narrower kinds
            bool cond = r_.coin();
            n->n = cond ? nk::cond : nk::coalesce;
            std::size_t m = 1 + r_.below(3);
            for (std::size_t i = 0; i < m; ++i) {
                if (cond) n->c.push_back(make(kind::boolean, depth - 1));
                n->c.push_back(make(narrower(k), depth - 1));
            }
            if (cond && r_.coin(60)) n->c.push_back(make(narrower(k), depth - 1));
            return n;
        }
        if (k == kind::boolean) {
            switch (r_.below(5)) {
                case 0: {
                    n->n = r_.pick(std::vector<nk>{nk::lnot, nk::is_null, nk::is_true, nk::is_false, nk::is_unknown});
                    kind o = n->n == nk::is_null ? r_.pick(kinds) : kind::boolean;
                    n->c.push_back(make(o, depth - 1));
                    return n;
                }
                case 1: case 2:
                    n->n = r_.coin() ? nk::land : nk::lor;
                    n->c.push_back(make(k, depth - 1));
                    n->c.push_back(make(k, depth - 1));
                    return n;
                default: {
                    n->n = r_.pick(std::vector<nk>{nk::eq, nk::ne, nk::lt, nk::le, nk::gt, nk::ge, nk::distinct, nk::not_distinct});
                    kind a = r_.pick(kinds);
                    if (a == kind::boolean) a = kind::int4;
                    kind b = sv::is_num(a) ? r_.pick(nums) : a;
                    n->c.push_back(make(a, depth - 1));
                    n->c.push_back(make(b, depth - 1));
                    if (r_.coin(15) && n->c[0]->n == nk::lit && a == b) { n->c[1] = std::make_unique<node>(); n->c[1]->k = a; n->c[1]->lit = n->c[0]->lit; }
                    return n;
                }
            }
        }
        if (k == kind::character) {
            n->n = nk::concat;
            n->c.push_back(make(k, depth - 1));
            n->c.push_back(make(k, depth - 1));
            return n;
        }
        if (!sv::is_num(k)) return leaf(k);
        if (k != kind::decimal && r_.coin(12)) {          // a conversion which loses nothing
            n->n = nk::cast;
            kind a = k;
            if (k == kind::int8) a = kind::int4;
            if (k == kind::float8) a = r_.pick(std::vector<kind>{kind::int4, kind::float4, kind::decimal});
            n->c.push_back(make(a, depth - 1));
            return n;
        }
        if (r_.coin(20)) {
            n->n = r_.coin(75) ? nk::neg : nk::plus;
            n->c.push_back(make(k, depth - 1));
            return n;
        }
        n->n = r_.pick(std::vector<nk>{nk::add, nk::sub, nk::mul, nk::div, nk::rem});
        // operand kinds whose promotion is k
        kind a = k, b = k;
        if (k == kind::int8 && r_.coin()) a = kind::int4;
        if (k == kind::decimal && r_.coin()) a = r_.coin() ? kind::int4 : kind::int8;
        if (k == kind::float8 && r_.coin(70)) { a = r_.pick(nums); if (a != kind::float8 && a != kind::float4 && r_.coin()) b = kind::float4; }
        if ((k == kind::float8 || k == kind::float4) && n->n == nk::rem) n->n = nk::add;
        if (r_.coin()) std::swap(a, b);
        n->c.push_back(make(a, depth - 1));
        n->c.push_back(make(b, depth - 1));
        return n;
    }
private:
    kind narrower(kind k) {
        if (r_.coin()) return k;
        switch (k) {
            case kind::int8: return kind::int4;
            case kind::decimal: return k;
            case kind::float8: return r_.pick(std::vector<kind>{kind::int4, kind::float4, kind::int8});
            default: return k;
        }
    }
    vh::rng& r_;
    world& w_;
};

inline V eval(node const& n, world const& w) {
    using o = sv::op;
    auto rest = [&](std::size_t i) { return eval(*n.c[i], w); };
    switch (n.n) {
        case nk::lit: return n.lit;
        case nk::var: return w.vars[n.var].v;
        case nk::neg: {
            V a = rest(0);
            if (!a.ok() || a.v.null) return a;
            switch (n.k) {
                case kind::float4: case kind::float8: return V::d(n.k, sv::canonical(-a.v.d));
                case kind::decimal: { auto d = sv::d_of(a.v.t); return sv::fin({-d.c, d.e}); }
                default: return sv::arith(o::sub, V::i(n.k, 0), a);
            }
        }
        case nk::plus: return rest(0);
        case nk::lnot: { V a = rest(0); return !a.ok() || a.v.null ? a : V::b(a.v.i == 0); }
        case nk::is_null: case nk::is_true: case nk::is_false: case nk::is_unknown: {
            V a = rest(0);
            if (a.open) return V::opened(kind::boolean);
            if (a.err != ek::none) return V::error(kind::boolean, a.err);
            if (n.n == nk::is_null || n.n == nk::is_unknown) return V::b(a.v.null);
            return V::b(!a.v.null && (a.v.i != 0) == (n.n == nk::is_true));
        }
        case nk::land: case nk::lor: {
            bool dom = n.n == nk::lor;       // the value which decides alone
            V a = rest(0), b = rest(1);
            if (a.open || b.open) return V::opened(kind::boolean);
            if (a.err != ek::none || b.err != ek::none) {
                // whether an operand is evaluated when the other one decides is left open by SQL
                V const& x = a.err != ek::none ? b : a;
                if (x.err == ek::none && !x.v.null && (x.v.i != 0) == dom) return V::opened(kind::boolean);
                return V::error(kind::boolean, a.err != ek::none && b.err != ek::none && a.err != b.err ? ek::other : a.err != ek::none ? a.err : b.err);
            }
            if ((!a.v.null && (a.v.i != 0) == dom) || (!b.v.null && (b.v.i != 0) == dom)) return V::b(dom);
            if (a.v.null || b.v.null) return V::null(kind::boolean);
            return V::b(!dom);
        }
        case nk::add: case nk::sub: case nk::mul: case nk::div: case nk::rem: case nk::concat:
        case nk::eq: case nk::ne: case nk::lt: case nk::le: case nk::gt: case nk::ge: case nk::distinct: case nk::not_distinct: {
            V a = rest(0), b = rest(1);
            if (a.open || b.open) return V::opened(n.k);
            if (a.err != ek::none || b.err != ek::none)
                return V::error(n.k, a.err != ek::none && b.err != ek::none && a.err != b.err ? ek::other : a.err != ek::none ? a.err : b.err);
            switch (n.n) {
                case nk::add: return sv::arith(o::add, a, b);
                case nk::sub: return sv::arith(o::sub, a, b);
                case nk::mul: return sv::arith(o::mul, a, b);
                case nk::div: return sv::arith(o::div, a, b);
                case nk::rem: return sv::arith(o::rem, a, b);
                default: break;
            }
            if (n.n == nk::distinct || n.n == nk::not_distinct) {
                bool eq = a.v.null || b.v.null ? a.v.null == b.v.null : sv::order(a, b) == 0;
                return V::b(eq == (n.n == nk::not_distinct));
            }
            if (a.v.null || b.v.null) return V::null(n.k);
            if (n.n == nk::concat) return V::str(a.v.s + b.v.s);
            int c = sv::order(a, b);
            switch (n.n) {
                case nk::eq: return V::b(c == 0);
                case nk::ne: return V::b(c != 0);
                case nk::lt: return V::b(c < 0);
                case nk::le: return V::b(c <= 0);
                case nk::gt: return V::b(c > 0);
                default: return V::b(c >= 0);
            }
        }
        case nk::cond: {
            std::size_t i = 0;
            auto conv = [&](V v) { if (v.open) return V::opened(n.k); if (v.err != ek::none) return V::error(n.k, v.err); return sv::to_kind(v, n.k); };
            for (; i + 1 < n.c.size(); i += 2) {
                V b = rest(i);
                if (b.open) return V::opened(n.k);
                if (b.err != ek::none) return V::error(n.k, b.err);
                if (!b.v.null && b.v.i != 0) return conv(rest(i + 1));
            }
            if (i < n.c.size()) return conv(rest(i));
            return V::null(n.k);
        }
        case nk::cast: {
            V v = rest(0);
            if (v.open) return V::opened(n.k);
            if (v.err != ek::none) return V::error(n.k, v.err);
            V c = sv::to_kind(v, n.k);
            if (!c.v.null && (n.k == kind::float4 || n.k == kind::float8)) c.v.d = sv::canonical(c.v.d);
            return c;
        }
        case nk::coalesce:
            for (auto& c : n.c) {
                V v = eval(*c, w);
                if (v.open) return V::opened(n.k);
                if (v.err != ek::none) return V::error(n.k, v.err);
                if (!v.v.null) return sv::to_kind(v, n.k);
            }
            return V::null(n.k);
    }
    std::abort();
}

inline ptr build(node const& n, world const& w, yugawara::compiled_info& info) {
    using B = ts::binary_operator;
    using C = ts::comparison_operator;
    using U = ts::unary_operator;
    ptr e;
    auto kid = [&](std::size_t i) { return build(*n.c[i], w, info); };
    auto bin = [&](B b) { auto l = kid(0); auto r = kid(1); e = std::make_unique<ts::binary>(b, std::move(l), std::move(r)); };
    auto cmp = [&](C b) { auto l = kid(0); auto r = kid(1); e = std::make_unique<ts::compare>(b, std::move(l), std::move(r)); };
    auto un = [&](U u) { e = std::make_unique<ts::unary>(u, kid(0)); };
    switch (n.n) {
        case nk::lit: e = std::make_unique<ts::immediate>(value_of(n.k, n.lit.v), type_of(n.k)); break;
        case nk::var: e = std::make_unique<ts::variable_reference>(w.vars[n.var].d); break;
        case nk::neg: un(U::sign_inversion); break;
        case nk::plus: un(U::plus); break;
        case nk::lnot: un(U::conditional_not); break;
        case nk::is_null: un(U::is_null); break;
        case nk::is_true: un(U::is_true); break;
        case nk::is_false: un(U::is_false); break;
        case nk::is_unknown: un(U::is_unknown); break;
        case nk::add: bin(B::add); break;
        case nk::sub: bin(B::subtract); break;
        case nk::mul: bin(B::multiply); break;
        case nk::div: bin(B::divide); break;
        case nk::rem: bin(B::remainder); break;
        case nk::concat: bin(B::concat); break;
        case nk::land: bin(B::conditional_and); break;
        case nk::lor: bin(B::conditional_or); break;
        case nk::eq: cmp(C::equal); break;
        case nk::ne: cmp(C::not_equal); break;
        case nk::lt: cmp(C::less); break;
        case nk::le: cmp(C::less_equal); break;
        case nk::gt: cmp(C::greater); break;
        case nk::ge: cmp(C::greater_equal); break;
        case nk::distinct: cmp(C::is_distinct_from); break;
        case nk::not_distinct: cmp(C::is_not_distinct_from); break;
        case nk::cond: {
            std::vector<std::unique_ptr<ts::conditional_alternative>> a;
            std::size_t i = 0;
            for (; i + 1 < n.c.size(); i += 2) { auto x = kid(i); auto y = kid(i + 1); a.push_back(std::make_unique<ts::conditional_alternative>(std::move(x), std::move(y))); }
            ptr d;
            if (i < n.c.size()) d = kid(i);
            e = std::make_unique<ts::conditional>(std::move(a), std::move(d));
            break;
        }
        case nk::cast: e = std::make_unique<ts::cast>(type_of(n.k), ts::cast_loss_policy::error, kid(0)); break;
        case nk::coalesce: {
            std::vector<ptr> a;
            for (std::size_t i = 0; i < n.c.size(); ++i) a.push_back(kid(i));
            e = std::make_unique<ts::coalesce>(std::move(a));
            break;
        }
    }
    info.bind(*e, type_of(n.k));
    return e;
}

namespace impl = jogasaki::executor::process::impl;
// the engine's variable tables holding the values of the world
struct tables {
    std::vector<impl::variable_table_info> infos{};
    impl::variable_table_list list{};
    std::unique_ptr<impl::variable_table_info> hinfo{};
    std::unique_ptr<impl::variable_table> host{};
    rec::heap_resource res{};
    void fill(world const& w) {
        std::vector<std::shared_ptr<rec::jm::record_meta>> metas;
        std::vector<std::unordered_map<takatori::descriptor::variable, std::size_t>> idx(3);
        std::vector<std::vector<fdesc>> f(3);
        for (auto& v : w.vars) {
            idx[v.where][v.d] = f[v.where].size();
            fdesc d; d.k = v.k; d.nullable = true; d.varying = true;
            f[v.where].push_back(d);
        }
        for (auto& x : f) metas.push_back(rec::make_meta(x));
        // block 1 is another basic block of the process; its variables are visible from block 0
        infos.reserve(2);
        infos.emplace_back(idx[1], metas[1], impl::region_id{impl::region_kind::basic_block, 1});
        std::unordered_map<takatori::descriptor::variable, impl::value_info> m;
        for (auto& [v, i] : idx[0]) m[v] = impl::value_info{metas[0]->value_offset(i), metas[0]->nullity_offset(i), i, impl::region_id{}};
        infos.emplace_back(m, metas[0], &infos[0]);
        list.emplace_back(infos[1]);
        list.emplace_back(infos[0]);
        hinfo = std::make_unique<impl::variable_table_info>(idx[2], std::unordered_map<std::string, takatori::descriptor::variable>{}, metas[2]);
        host = std::make_unique<impl::variable_table>(*hinfo);
        for (auto& v : w.vars) {
            auto ref = v.where == 2 ? host->store().ref() : list[v.where].store().ref();
            auto i = idx[v.where][v.d];
            rec::put(ref, *metas[v.where], i, f[v.where][i], v.v.v, &res);
        }
    }
    void clear() { list.clear(); infos.clear(); host.reset(); hinfo.reset(); res.clear(); }
};
}
