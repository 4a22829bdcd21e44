// Random statements over random tables, generated together with the rows a relational evaluator expects.
#pragma once
#include "db.h"
#include <algorithm>
#include <takatori/type/unknown.h>

namespace sg {
using namespace dbx;

struct index_def { std::string name; std::vector<std::pair<std::size_t, bool>> keys; bool unique{false}; };
struct table {
    std::string name;
    std::vector<column> cols;
    index_def pk;
    std::vector<index_def> idxs;
    std::vector<row> rows;
    std::vector<std::optional<val>> defaults{};     // by column, where a default value is declared
};
// order of index entries: NULL is the least value, each column in its direction
inline int key_cmp(table const& t, index_def const& x, row const& a, row const& b) {
    for (auto& [c, asc] : x.keys) {
        int d = rec::compare(t.cols[c].f, a[c], b[c]);
        if (d != 0) return asc ? d : -d;
    }
    return 0;
}

// values of a kind shared by the tables of a database, so that rows meet
struct pools {
    std::map<std::pair<int, int>, std::vector<val>> p{};
    static std::pair<int, int> key(fdesc const& f) { return {static_cast<int>(f.k), f.k == kind::decimal ? static_cast<int>(f.p.value_or(0) * 100 + f.s.value_or(0)) : static_cast<int>(f.len.value_or(0) * 2 + (f.varying ? 1 : 0))}; }
    static val any(vh::rng& r, fdesc const& f) {
        val v;
        v.null = false;
        switch (f.k) {
            case kind::int4: v.i = r.coin(70) ? r.range(-5, 20) : static_cast<std::int64_t>(r.edgy<std::int32_t>()); break;
            case kind::int8: v.i = r.coin(70) ? r.range(-5, 20) : r.edgy<std::int64_t>(); break;
            case kind::float4: case kind::float8: v.d = static_cast<double>(r.range(-6, 30)) / 4 * (r.coin(10) ? 1e10 : 1); if (f.k == kind::float4) v.d = static_cast<float>(v.d); if (v.d == 0) v.d = 0; break;
            case kind::decimal: v.t = rec::make_triple(mpz_class(static_cast<long>(r.range(-300, 900))), -static_cast<std::int32_t>(f.s.value_or(0))); break;
            case kind::character: case kind::octet: {
                static const std::vector<std::string> w{"", "a", "ab", "abc", "b", "B", "zz", "\xc3\xa9", "a b", "0"};
                v.s = r.pick(w);
                if (r.coin(30)) v.s += static_cast<char>('a' + r.below(6));
                if (f.k == kind::character && ! f.varying) v.s.resize(f.len.value_or(1), ' ');
                if (f.k == kind::octet && r.coin(40)) v.s += std::string(1, static_cast<char>(r.below(256)));
                if (f.k == kind::octet && ! f.varying) v.s.resize(f.len.value_or(1), '\0');
                if (f.len && v.s.size() > *f.len) v.s.resize(*f.len, 'x');
                if (f.k == kind::character && f.varying && f.len && *f.len < 4) v.s = v.s.substr(0, v.s.empty() ? 0 : (static_cast<unsigned char>(v.s[0]) < 0x80 ? 1 : 0));
                break;
            }
            case kind::date: v.i = r.range(-3, 20000); break;
            case kind::time_of_day: v.i = r.range(0, 86399) * 1000000000LL + (r.coin() ? 0 : r.range(0, 999999999)); break;
            case kind::time_point: v.i = r.range(-100000, 2000000000LL); v.j = r.coin() ? 0 : r.range(0, 999999999); break;
            default: v.i = 0;
        }
        return v;
    }
    val get(vh::rng& r, fdesc const& f, unsigned nulls = 15) {
        if (f.nullable && r.coin(nulls)) return {};
        auto& v = p[key(f)];
        if (v.empty()) for (int i = 0; i < 7; ++i) v.push_back(any(r, f));
        if (r.coin(12)) return any(r, f);
        return r.pick(v);
    }
};

inline fdesc rand_column_type(vh::rng& r, bool key) {
    fdesc f;
    static const std::vector<kind> ks{kind::int4, kind::int8, kind::int4, kind::int8, kind::decimal, kind::character, kind::character, kind::octet, kind::date, kind::time_of_day, kind::time_point, kind::float8, kind::float4};
    f.k = r.pick(ks);
    f.nullable = true;
    if (f.k == kind::decimal) { f.p = 9; f.s = r.coin() ? 2 : 0; }
    if (f.k == kind::character || f.k == kind::octet) { f.varying = r.coin(70); f.len = f.varying ? 12 : 6; }
    if (key && f.k == kind::octet) { f.varying = false; f.len = 6; }      // varying octets cannot be part of an index key
    return f;
}

struct database {
    vh::rng& r;
    engine& e;
    pools pool{};
    std::vector<table> tables{};
    database(vh::rng& r, engine& e) : r(r), e(e) {}
    void make_table(std::size_t max_rows, std::size_t max_index = 2, unsigned with_defaults = 0) {
        table t;
        t.name = "T" + std::to_string(tables.size());
        std::size_t n = 2 + r.below(4);
        std::size_t nk = 1 + r.below(std::min<std::size_t>(n, 3));
        for (std::size_t i = 0; i < n; ++i) {
            auto f = rand_column_type(r, i < nk);
            if (i < nk) f.nullable = false;
            else f.nullable = r.coin(75);
            t.cols.push_back({"C" + std::to_string(i), f});
        }
        t.defaults.resize(n);
        for (std::size_t i = 0; with_defaults != 0 && i < n; ++i) if (r.coin(with_defaults)) {
            auto f = t.cols[i].f;
            f.nullable = false;
            auto v = pool.get(r, f);
            t.defaults[i] = v;
            auto w = v;
            // what is declared is converted to the type of the column
            if (f.k == kind::character && ! f.varying) { while (w.s.size() > 1 && w.s.back() == ' ') w.s.pop_back(); }
            t.cols[i].def = {xt::value_of(f.k, w)};
        }
        t.pk.name = t.name;
        std::vector<std::size_t> perm(nk);
        for (std::size_t i = 0; i < nk; ++i) perm[i] = i;
        for (std::size_t i = nk; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        for (auto c : perm) t.pk.keys.emplace_back(c, r.coin(70));
        auto o = e.run(e.create_table(t.name, t.cols, t.pk.keys));
        VH_CHECK(o.ok(), "sql.create_table", "CREATE TABLE failed: " << static_cast<int>(o.st) << " " << o.message);
        std::size_t want = r.coin(8) ? 0 : r.below(max_rows) + 1;
        for (std::size_t i = 0; i < want; ++i) {
            row w;
            for (auto& c : t.cols) w.push_back(pool.get(r, c.f));
            bool dup = false;
            if (t.rows.size() < 200) { for (auto& x : t.rows) if (key_cmp(t, t.pk, x, w) == 0) { dup = true; break; } }
            if (! dup) t.rows.push_back(std::move(w));
        }
        auto less = [&](row const& a, row const& b) { return key_cmp(t, t.pk, a, b) < 0; };
        std::sort(t.rows.begin(), t.rows.end(), less);
        t.rows.erase(std::unique(t.rows.begin(), t.rows.end(), [&](row const& a, row const& b) { return key_cmp(t, t.pk, a, b) == 0; }), t.rows.end());
        std::size_t ni = r.below(max_index + 1);
        std::vector<index_def> later;
        for (std::size_t i = 0; i < ni; ++i) {
            index_def x;
            x.name = t.name + "X" + std::to_string(i);
            std::vector<std::size_t> cs;
            for (std::size_t c = 0; c < n; ++c) if (t.cols[c].f.k != kind::octet || ! t.cols[c].f.varying) cs.push_back(c);
            for (std::size_t c = cs.size(); c > 1; --c) std::swap(cs[c - 1], cs[r.below(c)]);
            cs.resize(1 + r.below(std::min<std::size_t>(cs.size(), 2)));
            for (auto c : cs) x.keys.emplace_back(c, r.coin(60));
            t.idxs.push_back(x);
        }
        for (auto& x : t.idxs) {
            auto oo = e.run(e.create_index(t.name, x.name, x.keys, x.unique));
            VH_CHECK(oo.ok(), "sql.create_index", "CREATE INDEX failed: " << static_cast<int>(oo.st) << " " << oo.message);
        }
        load(t, t.rows);
        tables.push_back(std::move(t));
    }
    std::string insert_text(table const& t, std::vector<row> rows, tr::write_kind wk = tr::write_kind::insert) {
        return e.put("INSERT INTO " + t.name, [rows = std::move(rows), name = t.name, cols = t.cols, wk](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto p = env.schema.shared_storage_provider();
            auto tb = p->find_table(name);
            yugawara::binding::factory b{};
            std::vector<tr::details::values_row> vr;
            for (auto& w : rows) {
                std::vector<eptr> x;
                for (std::size_t i = 0; i < w.size(); ++i) x.push_back(literal(env, cols[i].f.k, w[i]));
                vr.emplace_back(std::move(x));
            }
            std::vector<var> cv;
            for (auto& c : cols) for (auto& d : tb->columns()) if (d.simple_name() == c.name) cv.push_back(b(d));
            return std::make_unique<tst::write>(wk, b(*p->find_primary_index(*tb)), std::move(cv), std::move(vr));
        });
    }
    void load(table const& t, std::vector<row> const& rows) {
        for (std::size_t i = 0; i < rows.size(); i += 400) {
            auto o = e.run(insert_text(t, {rows.begin() + static_cast<long>(i), rows.begin() + static_cast<long>(std::min(rows.size(), i + 400))}));
            VH_CHECK(o.ok(), "sql.insert", "INSERT failed: " << static_cast<int>(o.st) << " " << o.message);
        }
    }
};

struct col { var v; fdesc f; bool key{true}; };
// the rows produced so far by an unfinished process
struct flow {
    tp::process* p{};
    tr::expression* op{};
    std::size_t port{};
    std::vector<col> cols{};
    std::vector<row> rows{};
};

inline ys::index const& find_index(plan_builder& pb, table const& t, index_def const* x) {
    auto tb = pb.tables().find_table(t.name);
    if (x == nullptr) return *pb.tables().find_primary_index(*tb);
    return *pb.tables().find_index(x->name);
}
inline ys::column const& find_column(plan_builder& pb, table const& t, std::size_t i) {
    auto tb = pb.tables().find_table(t.name);
    for (auto& c : tb->columns()) if (c.simple_name() == t.cols[i].name) return c;
    throw std::logic_error("column");
}
inline typ stream_type(fdesc const& f) { return sql_type(f); }

struct result {
    std::vector<kind> kinds{};
    std::vector<row> rows{};
    bool error{false};              // evaluation of some row fails
    std::vector<std::pair<std::size_t, bool>> order{};      // when the rows come in an order
    bool ordered{false};
    std::string text{};             // what was generated
    std::set<std::string> ops{};
};

inline std::vector<std::shared_ptr<yugawara::aggregate::declaration const>> const& aggregates(yugawara::compile_environment& env) {
    return env.schema.aggregates()->list();
}

class plan_gen {
public:
    plan_gen(vh::rng& r, plan_builder& pb, std::vector<table> const& tables, pools& pool) : r_(r), pb_(pb), tables_(tables), pool_(pool) {}
    bool allow_errors = false;
    std::size_t max_rows = 6000;
    result out{};

    flow connect(flow f, tr::expression& op) { f.op = &op; f.port = 0; return f; }
    template <class T, class... A> T& after(flow& f, A&&... a) {
        auto& op = f.p->operators().emplace<T>(std::forward<A>(a)...);
        f.op->output_ports()[f.port] >> op.input_ports()[0];
        f.op = &op;
        f.port = 0;
        return op;
    }
    void note(std::string const& s) { out.text += s + "; "; }
    void used(std::string const& s) { out.ops.insert(s); }

    // ---- sources
    flow values_flow() {
        flow f;
        f.p = &pb_.process();
        std::size_t n = 1 + r_.below(4);
        std::vector<var> vs;
        for (std::size_t i = 0; i < n; ++i) {
            auto d = rand_column_type(r_, false);
            auto v = pb_.stream(stream_type(d));
            f.cols.push_back({v, d});
            vs.push_back(v);
        }
        std::size_t m = r_.below(9);
        std::vector<tr::details::values_row> rows;
        for (std::size_t i = 0; i < m; ++i) {
            row w;
            std::vector<eptr> x;
            for (auto& c : f.cols) {
                auto v = pool_.get(r_, c.f);
                if (c.f.k == kind::int8 && r_.coin(20)) {     // a narrower type is converted
                    if (! v.null) v.i = static_cast<std::int32_t>(v.i);
                    x.push_back(literal(pb_.env, kind::int4, v));
                } else x.push_back(literal(pb_.env, c.f.k, v));
                w.push_back(v);
            }
            f.rows.push_back(std::move(w));
            rows.emplace_back(std::move(x));
        }
        f.op = &f.p->operators().emplace<tr::values>(vs, std::move(rows));
        note("values(" + std::to_string(n) + "x" + std::to_string(m) + ")");
        used("values");
        return f;
    }
    std::vector<std::size_t> some_columns(table const& t) {
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < t.cols.size(); ++i) if (r_.coin(75)) cs.push_back(i);
        if (cs.empty()) cs.push_back(r_.below(t.cols.size()));
        if (r_.coin(30)) std::reverse(cs.begin(), cs.end());
        return cs;
    }
    template <class C> std::vector<C> columns_of(table const& t, std::vector<std::size_t> const& cs, std::vector<col>& into) {
        std::vector<C> m;
        for (auto i : cs) {
            auto f = t.cols[i].f;
            auto v = pb_.stream(stream_type(f));
            f.nullable = true;
            m.emplace_back(pb_.b(find_column(pb_, t, i)), v);
            into.push_back({v, f});
        }
        return m;
    }
    flow scan_flow() {
        flow f;
        auto& t = r_.pick(tables_);
        f.p = &pb_.process();
        auto cs = some_columns(t);
        auto m = columns_of<tr::scan::column>(t, cs, f.cols);
        index_def const* x = t.idxs.empty() || r_.coin() ? nullptr : &r_.pick(t.idxs);
        auto& op = f.p->operators().emplace<tr::scan>(pb_.b(find_index(pb_, t, x)), std::move(m));
        for (auto& w : t.rows) { row o; for (auto i : cs) o.push_back(w[i]); f.rows.push_back(std::move(o)); }
        f.op = &op;
        note("scan(" + t.name + (x ? " by " + x->name : "") + ")");
        used(x ? "scan_secondary" : "scan");
        return f;
    }
    // ---- expressions over a flow
    xt::world world_of(flow const& f) {
        xt::world w;
        for (auto& c : f.cols) w.vars.push_back({c.f.k, 0, c.v, sv::V::null(c.f.k)});
        return w;
    }
    static void set(xt::world& w, row const& x) { for (std::size_t i = 0; i < x.size(); ++i) w.vars[i].v = sv::V::of(w.vars[i].k, x[i]); }
    // an expression whose value is known for every row; nothing when none was found
    std::optional<std::pair<xt::np, std::vector<sv::V>>> expression(flow const& f, kind k, int depth, std::vector<row> const* over = nullptr) {
        auto w = world_of(f);
        auto& rows = over ? *over : f.rows;
        for (int i = 0; i < 12; ++i) {
            xt::gen g{r_, w};
            g.closed = true;
            auto n = g.make(k, depth);
            std::vector<sv::V> vs;
            bool good = true, err = false;
            for (auto& x : rows) {
                set(w, x);
                auto v = xt::eval(*n, w);
                if (v.open) { good = false; break; }
                if (v.err != sv::ek::none) { err = true; if (! allow_errors) { good = false; break; } }
                vs.push_back(std::move(v));
            }
            if (! good) continue;
            if (err) out.error = true;
            return std::pair{std::move(n), std::move(vs)};
        }
        return std::nullopt;
    }
    eptr build(xt::np const& n, flow const& f) { return xt::build(*n, world_of(f), pb_.env.info); }

    void filter(flow& f) {
        auto e = expression(f, kind::boolean, static_cast<int>(r_.below(3)) + 1);
        if (! e) return;
        after<tr::filter>(f, build(e->first, f));
        std::vector<row> keep;
        for (std::size_t i = 0; i < f.rows.size(); ++i) if (! e->second[i].v.null && e->second[i].v.i != 0) keep.push_back(std::move(f.rows[i]));
        note("filter " + std::to_string(f.rows.size()) + "->" + std::to_string(keep.size()));
        f.rows = std::move(keep);
        used("filter");
    }
    void project(flow& f) {
        std::vector<tr::project::column> cs;
        std::size_t n = 1 + r_.below(3);
        for (std::size_t i = 0; i < n; ++i) {
            static const std::vector<kind> ks{kind::int4, kind::int8, kind::float8, kind::decimal, kind::character, kind::boolean, kind::date, kind::float4};
            auto k = r_.pick(ks);
            auto e = expression(f, k, static_cast<int>(r_.below(4)));
            if (! e) continue;
            fdesc d; d.k = k; d.varying = true;
            auto v = pb_.stream(xt::type_of(k));
            cs.emplace_back(v, build(e->first, f));
            // later columns of the same operator see the earlier ones
            bool plain = e->first->n == xt::nk::var && f.cols[e->first->var].key;
            f.cols.push_back({v, d, plain || ! (k == kind::decimal || k == kind::float4 || k == kind::float8)});
            for (std::size_t j = 0; j < f.rows.size(); ++j) f.rows[j].push_back(e->second[j].v);
        }
        if (cs.empty()) return;
        note("project+" + std::to_string(cs.size()));
        after<tr::project>(f, std::move(cs));
        used("project");
    }
    // a column with a constant value
    void constant(flow& f, fdesc d) {
        auto v = pool_.get(r_, d, 30);
        auto x = pb_.stream(stream_type(d));
        std::vector<tr::project::column> cs;
        cs.emplace_back(x, literal(pb_.env, d.k, v));
        after<tr::project>(f, std::move(cs));
        f.cols.push_back({x, d});
        for (auto& w : f.rows) w.push_back(v);
    }
    std::vector<flow> buffer(flow f) {
        std::size_t n = 2 + r_.below(2);
        after<tr::buffer>(f, n);
        std::vector<flow> out;
        for (std::size_t i = 0; i < n; ++i) { out.push_back(f); out.back().port = i; }
        note("buffer(" + std::to_string(n) + ")");
        used("buffer");
        return out;
    }
    // ---- exchanges
    template <class C> std::vector<C> mapping(std::vector<col> const& from, std::vector<var> const& to) {
        std::vector<C> m;
        for (std::size_t i = 0; i < from.size(); ++i) m.emplace_back(from[i].v, to[i]);
        return m;
    }
    std::vector<var> exchange_columns(std::vector<col> const& cols) {
        std::vector<var> v;
        for (auto& c : cols) v.push_back(pb_.stream(typ{pb_.env.info.type_of(c.v).copy()}));
        return v;
    }
    void offer(flow& f, tp::exchange& x, std::vector<var> const& ex) {
        after<tr::step::offer>(f, pb_.b(x), mapping<tr::step::offer::column>(f.cols, ex));
        *f.p >> x;
    }
    // variables of the process reading an exchange
    std::vector<col> taken(std::vector<col> const& cols) {
        auto out = cols;
        for (auto& c : out) c.v = pb_.stream(typ{pb_.env.info.type_of(c.v).copy()});
        return out;
    }
    template <class C> std::vector<C> take_columns(std::vector<var> const& ex, std::vector<col> const& to) {
        std::vector<C> m;
        for (std::size_t i = 0; i < ex.size(); ++i) m.emplace_back(ex[i], to[i].v);
        if (r_.coin(30)) std::reverse(m.begin(), m.end());
        return m;
    }
    // union of flows with columns of the same types; a limit keeps any of the rows
    flow forward(std::vector<flow> in) {
        flow f;
        // a process writes to an exchange once
        for (std::size_t i = 1; i < in.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (in[i].p == in[j].p) { in[i] = forward({std::move(in[i])}); break; }
        auto ex = exchange_columns(in[0].cols);
        auto& x = pb_.g().emplace<tp::forward>(ex);
        for (auto& i : in) { offer(i, x, ex); f.rows.insert(f.rows.end(), i.rows.begin(), i.rows.end()); }
        f.cols = taken(in[0].cols);
        for (auto& i : in) for (std::size_t c = 0; c < f.cols.size(); ++c) f.cols[c].key = f.cols[c].key && i.cols[c].key;
        f.p = &pb_.process();
        x >> *f.p;
        f.op = &f.p->operators().emplace<tr::step::take_flat>(pb_.b(x), take_columns<tr::step::take_flat::column>(ex, f.cols));
        note("forward(" + std::to_string(in.size()) + ")");
        used(in.size() > 1 ? "union" : "forward");
        return f;
    }
    // gives the second flow the columns of the first
    void conform(flow& g, std::vector<col> const& to) {
        std::vector<col> cs;
        std::vector<std::size_t> from;
        for (auto& c : to) {
            std::vector<std::size_t> have;
            for (std::size_t i = 0; i < g.cols.size(); ++i) if (pools::key(g.cols[i].f) == pools::key(c.f)) have.push_back(i);
            if (! have.empty() && r_.coin(80)) from.push_back(r_.pick(have));
            else { auto d = c.f; d.nullable = true; constant(g, d); from.push_back(g.cols.size() - 1); }
        }
        std::vector<row> rows;
        for (auto& w : g.rows) { row o; for (auto i : from) o.push_back(w[i]); rows.push_back(std::move(o)); }
        for (auto i : from) cs.push_back(g.cols[i]);
        g.cols = std::move(cs);
        g.rows = std::move(rows);
    }
    // keeps columns whose values compare and hash plainly
    void only_keys(flow& f) { keep(f, [](col const& c) { return c.key; }); }
    template <class P> void keep(flow& f, P&& p) {
        std::vector<std::size_t> at;
        for (std::size_t i = 0; i < f.cols.size(); ++i) if (p(f.cols[i])) at.push_back(i);
        if (at.empty()) { constant(f, fdesc{kind::int4}); at.push_back(f.cols.size() - 1); }
        std::vector<col> cs;
        for (auto i : at) cs.push_back(f.cols[i]);
        for (auto& w : f.rows) { row o; for (auto i : at) o.push_back(w[i]); w = std::move(o); }
        f.cols = std::move(cs);
    }
    std::vector<std::size_t> key_columns(flow const& f, std::size_t max) {
        std::vector<std::size_t> k;
        for (std::size_t i = 0; i < f.cols.size(); ++i) if (f.cols[i].key) k.push_back(i);
        for (std::size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[r_.below(i)]);
        if (k.size() > max) k.resize(max);
        return k;
    }
    static int cmp_on(std::vector<col> const& cols, std::vector<std::size_t> const& k, row const& a, row const& b) {
        for (auto c : k) if (int d = rec::compare(cols[c].f, a[c], b[c]); d != 0) return d;
        return 0;
    }
    static std::vector<std::vector<row>> grouped(std::vector<col> const& cols, std::vector<std::size_t> const& k, std::vector<row> rows) {
        std::stable_sort(rows.begin(), rows.end(), [&](row const& a, row const& b) { return cmp_on(cols, k, a, b) < 0; });
        std::vector<std::vector<row>> g;
        for (auto& w : rows) {
            if (g.empty() || cmp_on(cols, k, g.back().back(), w) != 0) g.emplace_back();
            g.back().push_back(std::move(w));
        }
        return g;
    }
    struct group_port { tp::group* x; std::vector<var> ex; std::vector<col> cols; std::vector<std::vector<row>> groups; };
    group_port group(flow f, std::vector<std::size_t> const& keys, std::vector<tp::group::sort_key> sort, std::vector<var> const& ex, std::optional<std::size_t> limit, tp::group_mode mode) {
        std::vector<var> cs, ks;
        for (auto k : keys) ks.push_back(ex[k]);
        bool without = r_.coin();        // the key columns may be left out of the columns
        for (std::size_t i = 0; i < ex.size(); ++i) if (! without || std::find(keys.begin(), keys.end(), i) == keys.end()) cs.push_back(ex[i]);
        if (r_.coin(30)) std::reverse(cs.begin(), cs.end());
        auto& x = pb_.g().emplace<tp::group>(cs, ks, std::move(sort), limit, mode);
        offer(f, x, ex);
        auto g = grouped(f.cols, keys, std::move(f.rows));
        return {&x, ex, f.cols, std::move(g)};
    }
    // ORDER BY ... LIMIT, or the first rows of each group
    flow sorted(flow f, bool whole, bool distinct = false, bool may_limit = true) {
        std::optional<std::size_t> limit;
        std::vector<std::size_t> keys = whole ? std::vector<std::size_t>{} : key_columns(f, 1 + r_.below(2));
        std::vector<std::pair<std::size_t, bool>> order;
        bool lim = may_limit && r_.coin(40);
        if (distinct) {
            only_keys(f);
            keys = key_columns(f, 100);
            limit = 1;
        } else if (lim) {        // every column takes part in the order, so that the rows kept are determined
            only_keys(f);
            keys = whole ? keys : key_columns(f, 1 + r_.below(2));
            for (auto c : key_columns(f, 100)) order.emplace_back(c, r_.coin());
            limit = r_.below(8);
            if (*limit == 0) limit = 1;
        } else for (auto c : key_columns(f, 1 + r_.below(3))) order.emplace_back(c, r_.coin());
        auto ex = exchange_columns(f.cols);
        std::vector<tp::group::sort_key> sk;
        for (auto& [c, asc] : order) sk.emplace_back(ex[c], asc ? tr::sort_direction::ascendant : tr::sort_direction::descendant);
        auto g = group(std::move(f), keys, sk, ex, limit, tp::group_mode::equivalence);
        flow o;
        o.cols = taken(g.cols);
        o.p = &pb_.process();
        *g.x >> *o.p;
        o.op = &o.p->operators().emplace<tr::step::take_group>(pb_.b(*g.x), take_columns<tr::step::take_group::column>(g.ex, o.cols));
        after<tr::step::flatten>(o);
        for (auto& x : g.groups) {
            std::stable_sort(x.begin(), x.end(), [&](row const& a, row const& b) {
                for (auto& [c, asc] : order) if (int d = rec::compare(o.cols[c].f, a[c], b[c]); d != 0) return asc ? d < 0 : d > 0;
                return false;
            });
            for (std::size_t i = 0; i < x.size() && (! limit || i < *limit); ++i) o.rows.push_back(x[i]);
        }
        note(std::string{distinct ? "distinct" : whole ? "order" : "group"} + (limit ? " limit " + std::to_string(*limit) : ""));
        used(distinct ? "distinct" : whole ? (limit ? "order_limit" : "order") : limit ? "group_limit" : "group");
        if (whole) { last_order_ = order; }
        return o;
    }
    // ---- aggregation
    struct agg { std::string name; std::optional<std::size_t> arg; std::shared_ptr<yugawara::aggregate::declaration const> decl; kind k; };
    static kind kind_of(takatori::type::data const& t) {
        using tk = takatori::type::type_kind;
        switch (t.kind()) {
            case tk::boolean: return kind::boolean;
            case tk::int4: return kind::int4;
            case tk::int8: return kind::int8;
            case tk::float4: return kind::float4;
            case tk::float8: return kind::float8;
            case tk::decimal: return kind::decimal;
            case tk::character: return kind::character;
            case tk::octet: return kind::octet;
            case tk::date: return kind::date;
            case tk::time_of_day: return kind::time_of_day;
            case tk::time_point: return kind::time_point;
            default: return kind::unknown;
        }
    }
    static bool plain(takatori::type::data const& t) {      // no time zone
        auto k = kind_of(t);
        if (k == kind::time_of_day) return ! static_cast<takatori::type::time_of_day const&>(t).with_time_zone();
        if (k == kind::time_point) return ! static_cast<takatori::type::time_point const&>(t).with_time_zone();
        return k != kind::unknown;
    }
    // exact value of an aggregate function; nothing when it is not determined (overflow, rounding)
    static std::optional<val> aggregate_value(agg const& a, fdesc const* f, std::vector<row> const& rows) {
        val v;
        v.null = false;
        auto is = [&](char const* n) { return a.name == n; };
        if (is("count") && ! a.arg) { v.i = static_cast<std::int64_t>(rows.size()); return v; }
        std::vector<val> xs;
        for (auto& w : rows) if (! w[*a.arg].null) xs.push_back(w[*a.arg]);
        if (is("count")) { v.i = static_cast<std::int64_t>(xs.size()); return v; }
        if (is("count$distinct")) {
            std::sort(xs.begin(), xs.end(), [&](val const& x, val const& y) { return rec::compare(*f, x, y) < 0; });
            v.i = std::unique(xs.begin(), xs.end(), [&](val const& x, val const& y) { return rec::compare(*f, x, y) == 0; }) - xs.begin();
            return v;
        }
        if (xs.empty()) return val{};
        if (is("max") || is("min")) {
            v = xs[0];
            for (auto& x : xs) { int d = rec::compare(*f, x, v); if (is("max") ? d > 0 : d < 0) v = x; }
            return v;
        }
        bool avg = is("avg");
        if (! avg && ! is("sum")) return std::nullopt;
        switch (f->k) {
            case kind::int4: case kind::int8: {
                mpz_class s{0};
                for (auto& x : xs) s += mpz_class(static_cast<long>(x.i));
                bool in = f->k == kind::int4 ? abs(s) < (mpz_class(1) << 30) : abs(s) < (mpz_class(1) << 62);
                mpz_class all{0};
                for (auto& x : xs) all += abs(mpz_class(static_cast<long>(x.i)));
                if (! in || all >= (mpz_class(1) << (f->k == kind::int4 ? 30 : 62))) return std::nullopt;
                if (avg) { if (f->k != kind_of(a.decl->return_type())) return std::nullopt; s = s / static_cast<long>(xs.size()); }
                v.i = s.get_si();
                return v;
            }
            case kind::float4: case kind::float8: {
                double s = 0;
                for (auto& x : xs) { s += x.d; if (std::abs(s) > 10000 || std::isnan(s) || std::floor(x.d * 4) != x.d * 4) return std::nullopt; }
                for (auto& x : xs) if (std::abs(x.d) > 10000) return std::nullopt;
                v.d = s;
                if (avg) v.d = f->k == kind::float4 ? static_cast<double>(static_cast<float>(s) / static_cast<float>(xs.size())) : s / static_cast<double>(xs.size());
                return v;
            }
            case kind::decimal: {
                sv::D s{0, 0};
                for (auto& x : xs) { auto t = sv::d_of(x.t); sv::align(s, t); s.c += t.c; if (sv::digits(s.c) > 30) return std::nullopt; }
                auto r = sv::fin(s);
                if (avg) r = sv::d_div(s, {mpz_class(static_cast<long>(xs.size())), 0});
                if (! r.ok()) return std::nullopt;
                return r.v;
            }
            default: return std::nullopt;
        }
    }
    std::vector<agg> functions(flow const& f, bool incremental, std::size_t max) {
        std::vector<agg> out;
        auto const& list = aggregates(pb_.env);
        std::size_t n = 1 + r_.below(max);
        for (int tries = 0; tries < 200 && out.size() < n; ++tries) {
            auto& d = r_.pick(list);
            if (d->incremental() != incremental || d->parameter_types().size() > 1) continue;
            agg a{d->name(), std::nullopt, d, kind_of(d->return_type())};
            if (a.k == kind::unknown || ! plain(d->return_type())) continue;
            if (d->parameter_types().size() == 1) {
                if (! plain(d->parameter_types()[0])) continue;
                std::vector<std::size_t> have;
                for (std::size_t i = 0; i < f.cols.size(); ++i)
                    if (f.cols[i].f.k == kind_of(d->parameter_types()[0]) && (a.name != "count$distinct" || f.cols[i].key)) have.push_back(i);
                if (have.empty()) continue;
                a.arg = r_.pick(have);
            }
            out.push_back(std::move(a));
        }
        return out;
    }
    std::optional<flow> aggregate(flow f, bool incremental) {
        auto keys = key_columns(f, r_.below(3));
        auto as = functions(f, incremental, 4);
        if (as.empty()) return std::nullopt;
        bool whole = r_.coin();
        auto groups = grouped(f.cols, keys, f.rows);
        if (groups.empty() && keys.empty() && whole) groups.emplace_back();
        std::vector<row> rows;
        std::vector<agg> good;
        for (auto& a : as) {
            bool known = true;
            for (auto& g : groups) if (! aggregate_value(a, a.arg ? &f.cols[*a.arg].f : nullptr, g)) { known = false; break; }
            if (known) good.push_back(a);
        }
        if (good.empty()) return std::nullopt;
        for (auto& g : groups) {
            row w;
            if (! g.empty()) for (auto k : keys) w.push_back(g[0][k]);
            for (auto& a : good) w.push_back(*aggregate_value(a, a.arg ? &f.cols[*a.arg].f : nullptr, g));
            rows.push_back(std::move(w));
        }
        flow o;
        std::vector<col> cols;
        for (auto k : keys) cols.push_back(f.cols[k]);
        auto mode = whole ? tp::group_mode::equivalence_or_whole : tp::group_mode::equivalence;
        auto ex = exchange_columns(f.cols);
        std::vector<var> ks;
        for (auto k : keys) ks.push_back(ex[k]);
        std::vector<var> dest;
        std::vector<tr::details::aggregate_element> el;
        std::vector<col> acols;
        for (auto& a : good) {
            fdesc d; d.k = a.k; d.varying = true;
            auto v = pb_.stream(typ{a.decl->return_type().copy()});
            bool key = (a.name == "max" || a.name == "min") ? f.cols[*a.arg].key : ! (a.k == kind::decimal || a.k == kind::float4 || a.k == kind::float8);
            acols.push_back({v, d, key});
            dest.push_back(v);
        }
        if (incremental) {
            for (std::size_t i = 0; i < good.size(); ++i) {
                std::vector<var> args;
                if (good[i].arg) args.push_back(ex[*good[i].arg]);
                el.emplace_back(pb_.b(good[i].decl), args, dest[i]);
            }
            auto dcols = ks;
            dcols.insert(dcols.end(), dest.begin(), dest.end());
            auto& x = pb_.g().emplace<tp::aggregate>(ex, dcols, ks, std::move(el), mode);
            offer(f, x, ex);
            auto all = cols;
            all.insert(all.end(), acols.begin(), acols.end());
            o.cols = taken(all);
            o.p = &pb_.process();
            x >> *o.p;
            o.op = &o.p->operators().emplace<tr::step::take_group>(pb_.b(x), take_columns<tr::step::take_group::column>(dcols, o.cols));
            after<tr::step::flatten>(o);
        } else {
            auto& x = *group(f, keys, {}, ex, std::nullopt, mode).x;
            auto tk = taken(f.cols);
            o.p = &pb_.process();
            x >> *o.p;
            o.op = &o.p->operators().emplace<tr::step::take_group>(pb_.b(x), take_columns<tr::step::take_group::column>(ex, tk));
            for (std::size_t i = 0; i < good.size(); ++i) {
                std::vector<var> args;
                if (good[i].arg) args.push_back(tk[*good[i].arg].v);
                el.emplace_back(pb_.b(good[i].decl), args, dest[i]);
            }
            after<tr::step::aggregate>(o, std::move(el));
            for (auto k : keys) o.cols.push_back(tk[k]);
            o.cols.insert(o.cols.end(), acols.begin(), acols.end());
        }
        o.rows = std::move(rows);
        std::string s = incremental ? "aggregate(" : "aggregate_group(";
        for (auto& a : good) s += a.name + ",";
        note(s + " by " + std::to_string(keys.size()) + ")");
        used(std::string{incremental ? "aggregate" : "aggregate_group"} + (keys.empty() ? "_whole" : ""));
        for (auto& a : good) used("f:" + a.name);
        return o;
    }
    // ---- joins
    std::optional<flow> join(std::vector<flow> in, tr::join_kind jk) {
        // pairs of columns of the same type
        auto comparable = [](fdesc const& a, fdesc const& b) { return pools::key(a) == pools::key(b); };
        std::vector<std::vector<std::size_t>> keys(in.size());
        std::size_t want = r_.below(3);
        for (std::size_t n = 0; n < want; ++n) {
            auto k0 = key_columns(in[0], 1);
            if (k0.empty()) break;
            std::vector<std::size_t> rest;
            for (std::size_t g = 1; g < in.size(); ++g) {
                std::vector<std::size_t> have;
                for (std::size_t i = 0; i < in[g].cols.size(); ++i) if (in[g].cols[i].key && comparable(in[g].cols[i].f, in[0].cols[k0[0]].f)) have.push_back(i);
                if (have.empty()) break;
                rest.push_back(r_.pick(have));
            }
            if (rest.size() + 1 != in.size()) continue;
            bool dup = std::find(keys[0].begin(), keys[0].end(), k0[0]) != keys[0].end();
            for (std::size_t g = 1; g < in.size(); ++g) dup = dup || std::find(keys[g].begin(), keys[g].end(), rest[g - 1]) != keys[g].end();
            if (dup) continue;
            keys[0].push_back(k0[0]);
            for (std::size_t g = 1; g < in.size(); ++g) keys[g].push_back(rest[g - 1]);
        }
        double cross = 1;
        for (auto& f : in) cross *= static_cast<double>(f.rows.size() + 1);
        if (keys[0].empty() && cross > 4000) return std::nullopt;
        // candidate combinations of rows
        std::vector<std::vector<std::vector<row>>> groups;
        for (std::size_t g = 0; g < in.size(); ++g) groups.push_back(grouped(in[g].cols, keys[g], in[g].rows));
        auto key_eq = [&](std::size_t g, row const& a, row const& b) {
            for (std::size_t i = 0; i < keys[0].size(); ++i) if (rec::compare(in[0].cols[keys[0][i]].f, a[keys[0][i]], b[keys[g][i]]) != 0) return false;
            return true;
        };
        flow o;
        std::vector<std::vector<col>> cols(in.size());
        for (std::size_t g = 0; g < in.size(); ++g) { cols[g] = taken(in[g].cols); o.cols.insert(o.cols.end(), cols[g].begin(), cols[g].end()); }
        std::vector<row> combos;
        std::vector<std::pair<std::size_t, std::size_t>> who;      // rows of the first two inputs in a combination
        std::vector<std::size_t> size0;
        std::vector<row> left = in[0].rows, right = in[1].rows;
        for (std::size_t i = 0; i < left.size(); ++i) {
            std::vector<std::pair<row, std::size_t>> acc{{left[i], 0}};
            for (std::size_t g = 1; g < in.size(); ++g) {
                std::vector<std::pair<row, std::size_t>> next;
                for (auto& a : acc) for (std::size_t j = 0; j < in[g].rows.size(); ++j) if (key_eq(g, left[i], in[g].rows[j])) {
                    auto x = a;
                    x.first.insert(x.first.end(), in[g].rows[j].begin(), in[g].rows[j].end());
                    if (g == 1) x.second = j;
                    next.push_back(std::move(x));
                }
                acc = std::move(next);
                if (acc.size() > max_rows) return std::nullopt;
            }
            for (auto& a : acc) { combos.push_back(std::move(a.first)); who.emplace_back(i, a.second); }
            if (combos.size() > max_rows) return std::nullopt;
        }
        std::vector<bool> hit(combos.size(), true);
        xt::np cond{};
        bool conditional = r_.coin(55);
        bool errs = allow_errors;
        allow_errors = false;            // which combinations are evaluated is left to the join
        if (conditional) {
            // rows padded with nulls are evaluated by some joins as well
            auto over = combos;
            row pad(o.cols.size());
            for (auto& x : left) { auto p = pad; std::copy(x.begin(), x.end(), p.begin()); over.push_back(p); }
            for (auto& x : right) { auto p = pad; std::copy(x.begin(), x.end(), p.begin() + static_cast<long>(cols[0].size())); over.push_back(p); }
            auto e = expression(o, kind::boolean, static_cast<int>(r_.below(3)) + 1, &over);
            if (e) {
                cond = std::move(e->first);
                for (std::size_t i = 0; i < combos.size(); ++i) hit[i] = ! e->second[i].v.null && e->second[i].v.i != 0;
            }
        }
        allow_errors = errs;
        std::vector<std::size_t> lhits(left.size()), rhits(right.size());
        for (std::size_t i = 0; i < combos.size(); ++i) if (hit[i]) { ++lhits[who[i].first]; ++rhits[who[i].second]; }
        using jkk = tr::join_kind;
        auto nulls = [&](row x, std::size_t before) { row p(before); p.insert(p.end(), x.begin(), x.end()); p.resize(o.cols.size()); return p; };
        if (jk == jkk::left_outer_at_most_one) for (auto h : lhits) if (h > 1) { if (! errs) return std::nullopt; out.error = true; }
        if (jk == jkk::semi || jk == jkk::anti) {
            for (std::size_t i = 0; i < left.size(); ++i) if ((lhits[i] > 0) == (jk == jkk::semi)) o.rows.push_back(nulls(left[i], 0));
        } else {
            for (std::size_t i = 0; i < combos.size(); ++i) if (hit[i]) o.rows.push_back(combos[i]);
            if (jk != jkk::inner) for (std::size_t i = 0; i < left.size(); ++i) if (lhits[i] == 0) o.rows.push_back(nulls(left[i], 0));
            if (jk == jkk::full_outer) for (std::size_t i = 0; i < right.size(); ++i) if (rhits[i] == 0) o.rows.push_back(nulls(right[i], cols[0].size()));
        }
        std::vector<tr::details::cogroup_element> el;
        std::vector<tp::group*> xs;
        for (std::size_t g = 0; g < in.size(); ++g) {
            auto ex = exchange_columns(in[g].cols);
            auto p = group(std::move(in[g]), keys[g], {}, ex, std::nullopt, tp::group_mode::equivalence);
            xs.push_back(p.x);
            el.emplace_back(pb_.b(*p.x), take_columns<tr::details::mapping_element>(p.ex, cols[g]));
        }
        o.p = &pb_.process();
        for (auto* x : xs) *x >> *o.p;
        o.op = &o.p->operators().emplace<tr::step::take_cogroup>(std::move(el));
        after<tr::step::join>(o, jk, cond ? build(cond, o) : eptr{});
        std::string s{to_string_view(jk)};
        note("join " + s + (cond ? " if" : "") + " on " + std::to_string(keys[0].size()) + " ->" + std::to_string(o.rows.size()));
        used("join_" + s + (cond ? "_if" : ""));
        if (jk == jkk::semi || jk == jkk::anti) {          // only the left side goes on
            o.cols.resize(cols[0].size());
            for (auto& w : o.rows) w.resize(cols[0].size());
        }
        return o;
    }
    // ---- index joins: each row of the flow looks up rows of a table
    // how a search key component is made: column of the flow, or a constant
    struct component { std::optional<std::size_t> from; val constant{}; };
    component key_component(flow const& f, fdesc const& d, bool null_ok) {
        std::vector<std::size_t> have;
        for (std::size_t i = 0; i < f.cols.size(); ++i) if (pools::key(f.cols[i].f) == pools::key(d) && f.cols[i].key) have.push_back(i);
        component c;
        if (! have.empty() && r_.coin(85)) { c.from = r_.pick(have); return c; }
        auto dd = d;
        dd.nullable = null_ok;
        c.constant = pool_.get(r_, dd, 6);
        return c;
    }
    val const& value(component const& c, row const& w) const { return c.from ? w[*c.from] : c.constant; }
    eptr build(component const& c, flow const& f, fdesc const& d) {
        if (c.from) return reference(pb_.env, f.cols[*c.from].v);
        return literal(pb_.env, d.k, c.constant);
    }
    struct range {
        std::vector<component> lower, upper;
        tr::endpoint_kind lk{tr::endpoint_kind::unbound}, uk{tr::endpoint_kind::unbound};
    };
    // bounds on a prefix of the index: equal leading columns and one column ranging
    range rand_range(flow const& f, table const& t, index_def const& x) {
        range g;
        auto n = r_.below(x.keys.size() + 1);
        std::vector<component> eq;
        for (std::size_t i = 0; i < n; ++i) eq.push_back(key_component(f, t.cols[x.keys[i].first].f, true));
        auto pe = tr::endpoint_kind::prefixed_exclusive, pi = tr::endpoint_kind::prefixed_inclusive;
        g.lower = g.upper = eq;
        if (! eq.empty()) g.lk = g.uk = pi;
        if (n < x.keys.size() && r_.coin(65)) {
            auto& d = t.cols[x.keys[n].first].f;
            auto side = r_.below(3);
            if (side != 1) { g.lower.push_back(key_component(f, d, true)); g.lk = r_.coin() ? pe : pi; }
            if (side != 0) { g.upper.push_back(key_component(f, d, true)); g.uk = r_.coin() ? pe : pi; }
        }
        return g;
    }
    std::string show_range(table const& t, index_def const& x, range const& g) {
        std::string s = "{";
        for (std::size_t i = 0; i < x.keys.size(); ++i) s += t.cols[x.keys[i].first].name + (x.keys[i].second ? " asc " : " desc ");
        auto side = [&](std::vector<component> const& k, tr::endpoint_kind ek) {
            s += std::string{" "} + (ek == tr::endpoint_kind::unbound ? "unbound" : ek == tr::endpoint_kind::prefixed_inclusive ? "incl" : "excl");
            for (auto& c : k) s += c.from ? " col" + std::to_string(*c.from) : " " + show(row{c.constant}, {t.cols[x.keys[static_cast<std::size_t>(&c - k.data())].first].f.k});
        };
        side(g.lower, g.lk);
        side(g.upper, g.uk);
        return s + "}";
    }
    // rows of a table within the range given by a row of the flow
    bool within(table const& t, index_def const& x, range const& g, row const& by, row const& w) {
        for (auto& c : g.lower) if (value(c, by).null) return false;
        for (auto& c : g.upper) if (value(c, by).null) return false;
        auto cmp = [&](std::vector<component> const& k) {
            for (std::size_t i = 0; i < k.size(); ++i) {
                // bounds are by value, whatever the direction of the key is: leading columns are equal on both sides
                auto c = x.keys[i].first;
                if (int d = rec::compare(t.cols[c].f, w[c], value(k[i], by)); d != 0) return d;
            }
            return 0;
        };
        if (g.lk != tr::endpoint_kind::unbound) { int d = cmp(g.lower); if (d < 0 || (d == 0 && g.lk == tr::endpoint_kind::prefixed_exclusive)) return false; }
        if (g.uk != tr::endpoint_kind::unbound) { int d = cmp(g.upper); if (d > 0 || (d == 0 && g.uk == tr::endpoint_kind::prefixed_exclusive)) return false; }
        // a column bounded on one side only is compared, so it is not null
        auto m = std::max(g.lower.size(), g.upper.size());
        for (std::size_t i = 0; i < m; ++i) if (w[x.keys[i].first].null) return false;
        return true;
    }
    tr::details::endpoint endpoint(flow const& f, table const& t, index_def const& x, std::vector<component> const& k, tr::endpoint_kind ek) {
        if (ek == tr::endpoint_kind::unbound) return {};
        std::vector<tr::details::search_key_element> ke;
        for (std::size_t i = 0; i < k.size(); ++i) {
            auto c = x.keys[i].first;
            ke.emplace_back(pb_.b(find_column(pb_, t, c)), build(k[i], f, t.cols[c].f));
        }
        return {ek, std::move(ke)};
    }
    std::optional<flow> index_join(flow f, tr::join_kind jk) {
        auto& t = r_.pick(tables_);
        index_def const* sx = t.idxs.empty() || r_.coin() ? nullptr : &r_.pick(t.idxs);
        auto const& x = sx ? *sx : t.pk;
        bool find = r_.coin();
        range g;
        if (find) {
            for (auto& [c, asc] : x.keys) g.lower.push_back(key_component(f, t.cols[c].f, true));
            g.upper = g.lower;
            g.lk = g.uk = tr::endpoint_kind::prefixed_inclusive;
        } else g = rand_range(f, t, x);
        auto cs = some_columns(t);
        flow o;
        o.p = f.p;
        o.cols = f.cols;
        auto m = columns_of<tr::scan::column>(t, cs, o.cols);
        std::vector<row> combos;
        std::vector<std::size_t> who;
        for (std::size_t i = 0; i < f.rows.size(); ++i) for (auto& w : t.rows) if (within(t, x, g, f.rows[i], w)) {
            auto z = f.rows[i];
            for (auto c : cs) z.push_back(w[c]);
            combos.push_back(std::move(z));
            who.push_back(i);
            if (combos.size() > max_rows) return std::nullopt;
        }
        std::vector<bool> hit(combos.size(), true);
        xt::np cond{};
        bool errs = allow_errors;
        allow_errors = false;
        if (r_.coin(50)) {
            auto over = combos;
            for (auto& w : f.rows) { auto p = w; p.resize(o.cols.size()); over.push_back(std::move(p)); }
            if (auto e = expression(o, kind::boolean, static_cast<int>(r_.below(3)) + 1, &over)) {
                cond = std::move(e->first);
                for (std::size_t i = 0; i < combos.size(); ++i) hit[i] = ! e->second[i].v.null && e->second[i].v.i != 0;
            }
        }
        allow_errors = errs;
        std::vector<std::size_t> hits(f.rows.size());
        for (std::size_t i = 0; i < combos.size(); ++i) if (hit[i]) ++hits[who[i]];
        using jkk = tr::join_kind;
        if (jk == jkk::semi || jk == jkk::anti) {
            for (std::size_t i = 0; i < f.rows.size(); ++i) if ((hits[i] > 0) == (jk == jkk::semi)) o.rows.push_back(f.rows[i]);
        } else {
            for (std::size_t i = 0; i < combos.size(); ++i) if (hit[i]) o.rows.push_back(combos[i]);
            if (jk == jkk::left_outer) for (std::size_t i = 0; i < f.rows.size(); ++i) if (hits[i] == 0) { auto w = f.rows[i]; w.resize(o.cols.size()); o.rows.push_back(std::move(w)); }
        }
        auto rel = pb_.b(find_index(pb_, t, sx));
        auto c = cond ? build(cond, o) : eptr{};
        if (find) {
            std::vector<tr::details::search_key_element> ke;
            std::vector<std::size_t> at(x.keys.size());
            for (std::size_t i = 0; i < at.size(); ++i) at[i] = i;
            if (r_.coin(30)) std::reverse(at.begin(), at.end());        // the order of search keys does not matter
            for (auto i : at) { auto cc = x.keys[i].first; ke.emplace_back(pb_.b(find_column(pb_, t, cc)), build(g.lower[i], f, t.cols[cc].f)); }
            after<tr::join_find>(f, jk, rel, std::move(m), std::move(ke), std::move(c));
        } else {
            auto lo = endpoint(f, t, x, g.lower, g.lk);
            auto up = endpoint(f, t, x, g.upper, g.uk);
            after<tr::join_scan>(f, jk, rel, std::move(m), std::move(lo), std::move(up), std::move(c));
        }
        o.op = f.op;
        o.port = f.port;
        if (jk == jkk::semi || jk == jkk::anti) o.cols.resize(f.cols.size());
        std::string s{to_string_view(jk)};
        std::string w = std::string{find ? "join_find_" : "join_scan_"} + s;
        note(w + (sx ? " by " + sx->name : " " + t.name) + show_range(t, x, g) + (cond ? " if" : "") + " ->" + std::to_string(o.rows.size()));
        used(w + (sx ? "_secondary" : ""));
        return o;
    }
    // range scan or point lookup with constant bounds
    flow bounded_flow() {
        flow f;
        auto& t = r_.pick(tables_);
        index_def const* sx = t.idxs.empty() || r_.coin() ? nullptr : &r_.pick(t.idxs);
        auto const& x = sx ? *sx : t.pk;
        bool find = r_.coin();
        flow none;
        range g;
        if (find) {
            for (auto& [c, asc] : x.keys) g.lower.push_back(key_component(none, t.cols[c].f, true));
            if (! t.rows.empty() && r_.coin(60)) { auto& w = r_.pick(t.rows); for (std::size_t i = 0; i < g.lower.size(); ++i) g.lower[i].constant = w[x.keys[i].first]; }
            g.upper = g.lower;
            g.lk = g.uk = tr::endpoint_kind::prefixed_inclusive;
        } else g = rand_range(none, t, x);
        f.p = &pb_.process();
        auto cs = some_columns(t);
        auto m = columns_of<tr::scan::column>(t, cs, f.cols);
        for (auto& w : t.rows) if (within(t, x, g, {}, w)) { row o; for (auto i : cs) o.push_back(w[i]); f.rows.push_back(std::move(o)); }
        auto rel = pb_.b(find_index(pb_, t, sx));
        if (find) {
            std::vector<tr::details::search_key_element> ke;
            for (std::size_t i = 0; i < x.keys.size(); ++i) { auto cc = x.keys[i].first; ke.emplace_back(pb_.b(find_column(pb_, t, cc)), build(g.lower[i], none, t.cols[cc].f)); }
            f.op = &f.p->operators().emplace<tr::find>(rel, std::move(m), std::move(ke));
        } else {
            f.op = &f.p->operators().emplace<tr::scan>(rel, std::move(m), endpoint(none, t, x, g.lower, g.lk), endpoint(none, t, x, g.upper, g.uk));
        }
        note(std::string{find ? "find(" : "range("} + t.name + (sx ? " by " + sx->name : "") + show_range(t, x, g) + ")->" + std::to_string(f.rows.size()));
        used(std::string{find ? "find" : "range_scan"} + (sx ? "_secondary" : ""));
        return f;
    }
    flow source() {
        auto x = r_.below(10);
        if (x < 2) return values_flow();
        if (x < 5) return bounded_flow();
        return scan_flow();
    }
    void emit(flow f) {
        std::vector<tr::emit::column> ec;
        for (std::size_t i = 0; i < f.cols.size(); ++i) { ec.emplace_back(f.cols[i].v, "c" + std::to_string(i)); out.kinds.push_back(f.cols[i].f.k); }
        after<tr::emit>(f, std::move(ec));
        out.rows = f.rows;
        out.ordered = ! last_order_.empty();
        out.order = last_order_;
    }
    // a random query
    void query(std::size_t steps) {
        std::vector<flow> live;
        live.push_back(source());
        for (std::size_t s = 0; s < steps; ++s) {
            if (live.size() < 3 && r_.coin(25)) { live.push_back(source()); continue; }
            std::size_t at = r_.below(live.size());
            auto take = [&](std::size_t i) { auto f = std::move(live[i]); live.erase(live.begin() + static_cast<long>(i)); return f; };
            static const std::vector<tr::join_kind> jks{tr::join_kind::inner, tr::join_kind::inner, tr::join_kind::left_outer, tr::join_kind::full_outer, tr::join_kind::semi, tr::join_kind::anti, tr::join_kind::left_outer_at_most_one};
            switch (r_.below(11)) {
                case 0: case 1: filter(live[at]); break;
                case 2: if (live[at].cols.size() < 10) project(live[at]); break;
                case 3: if (live.size() < 3) { auto fs = buffer(take(at)); for (auto& f : fs) live.push_back(std::move(f)); } break;
                case 4: { auto f = take(at); live.push_back(forward({std::move(f)})); break; }
                case 5: { auto f = take(at); live.push_back(sorted(std::move(f), r_.coin(20), r_.coin(30))); last_order_.clear(); break; }
                case 6: case 7: if (auto o = aggregate(live[at], r_.coin())) live[at] = std::move(*o); break;
                case 8: {
                    if (live.size() < 2) break;
                    auto b = (at + 1) % live.size();
                    if (live[at].cols.size() + live[b].cols.size() > 12) break;
                    if (live.size() == 3 && r_.coin(25) && live[0].rows.size() * live[1].rows.size() * live[2].rows.size() < 30000 && live[0].cols.size() + live[1].cols.size() + live[2].cols.size() < 14) {
                        if (auto o = join({live[0], live[1], live[2]}, tr::join_kind::inner)) { live.clear(); live.push_back(std::move(*o)); }
                        break;
                    }
                    if (auto o = join({live[at], live[b]}, r_.pick(jks))) {
                        auto hi = std::max(at, b), lo = std::min(at, b);
                        live.erase(live.begin() + static_cast<long>(hi));
                        live[lo] = std::move(*o);
                    }
                    break;
                }
                default: {
                    if (live[at].cols.size() > 8) break;
                    static const std::vector<tr::join_kind> iks{tr::join_kind::inner, tr::join_kind::left_outer, tr::join_kind::semi, tr::join_kind::anti};
                    if (auto o = index_join(live[at], r_.pick(iks))) live[at] = std::move(*o);
                    break;
                }
            }
        }
        while (live.size() > 1) {
            auto b = std::move(live.back());
            live.pop_back();
            auto a = std::move(live.back());
            live.pop_back();
            conform(b, a.cols);
            live.push_back(forward({std::move(a), std::move(b)}));
        }
        auto f = std::move(live[0]);
        if (r_.coin(30)) f = sorted(std::move(f), true);
        emit(std::move(f));
    }
private:
    vh::rng& r_;
    plan_builder& pb_;
    std::vector<table> const& tables_;
    pools& pool_;
    std::vector<std::pair<std::size_t, bool>> last_order_{};
};

inline fdesc plain_desc(kind k) { fdesc f; f.k = k; return f; }
inline int row_cmp(std::vector<kind> const& k, row const& a, row const& b) {
    for (std::size_t i = 0; i < k.size(); ++i) if (int d = rec::compare(plain_desc(k[i]), a[i], b[i]); d != 0) return d;
    return 0;
}
// empty when the rows are those expected
inline std::string row_diff(std::vector<kind> const& k, std::vector<row> want, std::vector<row> got) {
    auto less = [&](row const& a, row const& b) { return row_cmp(k, a, b) < 0; };
    for (auto* v : {&want, &got}) for (auto& w : *v) if (w.size() != k.size()) return "row width " + std::to_string(w.size()) + " for " + std::to_string(k.size());
    std::sort(want.begin(), want.end(), less);
    std::sort(got.begin(), got.end(), less);
    std::size_t i = 0, j = 0;
    std::string s;
    int n = 0;
    while ((i < want.size() || j < got.size()) && n < 4) {
        int d = i == want.size() ? 1 : j == got.size() ? -1 : row_cmp(k, want[i], got[j]);
        if (d == 0) { ++i; ++j; continue; }
        if (d < 0) s += " missing " + show(want[i++], k);
        else s += " unexpected " + show(got[j++], k);
        ++n;
    }
    if (! s.empty()) s = "want " + std::to_string(want.size()) + " rows, got " + std::to_string(got.size()) + ":" + s;
    return s;
}
inline std::string order_diff(result const& e, std::vector<row> const& got) {
    for (std::size_t i = 1; i < got.size(); ++i)
        for (auto& [c, asc] : e.order) {
            int d = rec::compare(plain_desc(e.kinds[c]), got[i - 1][c], got[i][c]);
            if (d == 0) continue;
            if (asc ? d > 0 : d < 0) return "rows out of order: " + show(got[i - 1], e.kinds) + " before " + show(got[i], e.kinds);
            break;
        }
    return {};
}
}
