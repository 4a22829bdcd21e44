// Statements which change tables: rows, index entries, counters, constraints, failures half way, and the end of the transaction.
#include "sqlgen.h"
#include <glog/logging.h>
#include <jogasaki/api/transaction_option.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/request_statistics.h>
#include <jogasaki/storage/storage_manager.h>
using namespace sg;
using SC = sharksfin::StatusCode;

struct expected {
    bool fail{};                    // the statement ends with an error
    error_code code{};              // its code, when known
    std::optional<std::int64_t> inserted{}, updated{}, merged{}, deleted{};
    std::vector<row> rows{};        // of the table afterwards
    std::string text{};
};
static std::optional<std::size_t> find_row(table const& t, std::vector<row> const& rows, row const& w) {
    for (std::size_t i = 0; i < rows.size(); ++i) if (key_cmp(t, t.pk, rows[i], w) == 0) return i;
    return std::nullopt;
}
static bool plain_float(val const& v) { return v.null || (std::isfinite(v.d) && ! (v.d == 0 && std::signbit(v.d)) && std::abs(v.d) < 1e30 && (v.d == 0 || std::abs(v.d) > 1e-30)); }

class world {
public:
    world(vh::rng& r, engine& e, bool threads) : r_(r), e_(e), d_(r, e), threads_(threads) {}
    void run(std::size_t txs) {
        auto n = 1 + r_.below(2);
        for (std::size_t i = 0; i < n; ++i) d_.make_table(r_.coin(20) ? 60 : 12, 3, 30);
        for (auto& t : d_.tables) committed_.push_back(t.rows);
        for (std::size_t i = 0; i < txs; ++i) transaction();
    }
private:
    vh::rng& r_;
    engine& e_;
    database d_;
    bool threads_;
    std::vector<std::vector<row>> committed_;
    std::string log_{};

    // what the engine stores, without going through the engine
    std::size_t stored(std::string const& name) {
        auto k = jogasaki::global::storage_manager()->get_storage_key(name);
        VH_CHECK(k.has_value(), "write.storage", "no storage for " << name);
        auto* h = jogasaki::global::db()->handle();
        std::unique_lock lk{h->m};
        auto it = h->stores.find(*k);
        VH_CHECK(it != h->stores.end(), "write.storage", "no storage " << name);
        return it->second->rows.size();
    }
    std::string select(table const& t, index_def const* x) {
        return e_.put("SELECT", [this, name = t.name, cols = t.cols, t2 = t, x](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            plan_builder pb{env};
            auto pool = d_.pool;
            plan_gen g{r_, pb, d_.tables, pool};
            auto f = whole(pb, g, t2, x);
            g.emit(std::move(f));
            return std::move(pb.stmt);
        });
    }
    // a query over a table which divides by zero as soon as there is a row
    std::string failing_select(table const& t) {
        return e_.put("SELECT 1/0", [this, t2 = t](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            plan_builder pb{env};
            auto pool = d_.pool;
            plan_gen g{r_, pb, d_.tables, pool};
            auto f = whole(pb, g, t2, nullptr);
            val one{}, zero{};
            one.null = zero.null = false;
            one.i = 1;
            fdesc d{};
            d.k = kind::int4;
            auto v = pb.stream(xt::type_of(kind::int4));
            std::vector<tr::project::column> pc;
            auto e = std::make_unique<takatori::scalar::binary>(takatori::scalar::binary_operator::divide, literal(env, kind::int4, one), literal(env, kind::int4, zero));
            env.info.bind(*e, xt::type_of(kind::int4));
            pc.emplace_back(v, std::move(e));
            g.after<tr::project>(f, std::move(pc));
            f.cols.push_back({v, d});
            if (g_sorted_) f = g.sorted(std::move(f), false, false, false);
            g.emit(std::move(f));
            return std::move(pb.stmt);
        });
    }
    bool g_sorted_{};
    std::string failing(std::size_t ti, expected& x) {
        x.text = "SELECT 1/0 FROM " + d_.tables[ti].name;
        x.fail = ! x.rows.empty();
        x.code = error_code::value_evaluation_exception;
        return failing_select(d_.tables[ti]);
    }
    flow whole(plan_builder& pb, plan_gen& g, table const& t, index_def const* x) {
        flow f;
        f.p = &pb.process();
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < t.cols.size(); ++i) cs.push_back(i);
        auto m = g.columns_of<tr::scan::column>(t, cs, f.cols);
        f.op = &f.p->operators().emplace<tr::scan>(pb.b(find_index(pb, t, x)), std::move(m));
        return f;
    }
    static std::vector<row> by_index(table const& t, index_def const& x, std::vector<row> rows) {
        std::sort(rows.begin(), rows.end(), [&](row const& a, row const& b) { auto d = key_cmp(t, x, a, b); return d != 0 ? d < 0 : key_cmp(t, t.pk, a, b) < 0; });
        return rows;
    }
    void look(api::transaction_handle tx, std::size_t ti, std::vector<row> const& rows, std::string const& when) {
        auto& t = d_.tables[ti];
        for (std::size_t i = 0; i <= t.idxs.size(); ++i) {
            auto* x = i == 0 ? nullptr : &t.idxs[i - 1];
            auto text = select(t, x);
            auto o = e_.exec(tx, text);
            yugawara::statement_registry::instance().erase(text);
            std::string where = log_ + " " + when + ", " + t.name + (x ? " by " + x->name : "") + ": ";
            VH_CHECK(o.ok(), "write.select", where << "scan failed: " << static_cast<int>(o.st) << " " << o.message);
            std::vector<kind> ks;
            for (auto& c : t.cols) ks.push_back(c.f.k);
            auto d = row_diff(ks, rows, o.rows);
            VH_CHECK(d.empty(), x ? "write.index" : "write.rows", where << d);
            auto want = by_index(t, x ? *x : t.pk, rows);
            for (std::size_t k = 0; k < want.size(); ++k) VH_CHECK(row_cmp(ks, want[k], o.rows[k]) == 0, "write.order", where << "row " << k << " is " << show(o.rows[k], ks) << " instead of " << show(want[k], ks));
            vh::event("rows compared", rows.size());
        }
    }
    // the same keys, each with a row that was there or that the statement brought
    void adopt(api::transaction_handle tx, std::size_t ti, std::vector<row>& rows) {
        auto& t = d_.tables[ti];
        auto text = select(t, nullptr);
        auto o = e_.exec(tx, text);
        yugawara::statement_registry::instance().erase(text);
        VH_CHECK(o.ok() && o.rows.size() == rows.size(), "write.rows", log_ << t.name << " has " << o.rows.size() << " rows instead of " << rows.size());
        std::vector<kind> ks;
        for (auto& c : t.cols) ks.push_back(c.f.k);
        auto known = [&](row const& w) {
            for (auto& k : current_[ti]) if (row_cmp(ks, k, w) == 0) return true;
            for (auto k : select_rows_) { expected y; if (complete(t, select_cs_, k, y) && row_cmp(ks, k, w) == 0) return true; }
            return false;
        };
        for (auto& w : o.rows) {
            VH_CHECK(find_row(t, rows, w).has_value(), "write.rows", log_ << t.name << " has a row of another key " << show(w, ks));
            VH_CHECK(known(w), "write.rows", log_ << t.name << " has a row nobody wrote " << show(w, ks));
        }
        rows = o.rows;
    }
    // ---------------------------------------------------------------- statements
    struct cell { kind k; val given; val v; bool fail{}; error_code code{}; };
    // a literal for a column: what is written in the statement, and what is stored
    cell literal_for(column const& c) {
        fdesc f = c.f;
        if (! f.nullable && r_.coin(2)) return {f.k, {}, {}, true, error_code::not_null_constraint_violation_exception};
        auto v = d_.pool.get(r_, f);
        cell x{f.k, v, v};
        if (v.null) return x;
        if (f.k == kind::int8 && r_.coin(30) && v.i >= INT32_MIN && v.i <= INT32_MAX) { x.k = kind::int4; vh::event("converted"); }
        else if (f.k == kind::int4 && r_.coin(30)) {
            x.k = kind::int8;
            vh::event("converted");
            if (r_.coin(4)) { x.given.i = r_.coin() ? 2147483648LL + r_.range(0, 100) : -2147483649LL - r_.range(0, 100); x.fail = true; x.code = error_code::value_evaluation_exception; }
        } else if (f.k == kind::character && ! f.varying && r_.coin(60)) { while (x.given.s.size() > 1 && x.given.s.back() == ' ') x.given.s.pop_back(); vh::event("converted"); }
        else if (f.k == kind::character && f.varying && r_.coin(2)) { x.given.s = std::string(*f.len + 1 + r_.below(5), 'q'); x.fail = true; x.code = error_code::value_too_long_exception; }
        else if (f.k == kind::decimal && f.s.value_or(0) == 0 && r_.coin(20)) {
            auto n = rec::coeff(v.t).get_si();
            x.k = kind::int8; x.given = {}; x.given.null = false; x.given.i = n;
            vh::event("converted");
        }
        return x;
    }
    std::vector<std::size_t> columns_given(table const& t) {
        std::vector<std::size_t> cs;
        for (std::size_t i = 0; i < t.cols.size(); ++i) {
            bool key = false;
            for (auto& k : t.pk.keys) key = key || k.first == i;
            if (t.defaults[i] ? r_.coin(50) : key ? ! r_.coin(1) : (t.cols[i].f.nullable ? r_.coin(80) : ! r_.coin(2))) cs.push_back(i);
        }
        if (cs.empty()) cs.push_back(t.pk.keys[0].first);
        if (r_.coin(30)) std::reverse(cs.begin(), cs.end());
        return cs;
    }
    // one row of an INSERT; true when the statement goes on
    bool insert_row(table const& t, tr::write_kind wk, row const& w, expected& x) {
        auto at = find_row(t, x.rows, w);
        if (wk == tr::write_kind::insert) {
            if (at) { x.fail = true; x.code = error_code::unique_constraint_violation_exception; return false; }
            x.rows.push_back(w);
            x.inserted = x.inserted.value_or(0) + 1;
        } else if (wk == tr::write_kind::insert_skip) {
            x.inserted = x.inserted.value_or(0) + (at ? 0 : 1);
            if (! at) x.rows.push_back(w);
        } else {
            x.merged = x.merged.value_or(0) + 1;
            if (at) x.rows[*at] = w; else x.rows.push_back(w);
        }
        return true;
    }
    // completes a row with defaults; false when a column may not be null
    bool complete(table const& t, std::vector<std::size_t> const& cs, row& w, expected& x) {
        for (std::size_t i = 0; i < t.cols.size(); ++i) {
            if (std::find(cs.begin(), cs.end(), i) != cs.end()) continue;
            if (t.defaults[i]) { w[i] = *t.defaults[i]; vh::event("defaults"); continue; }
            if (! t.cols[i].f.nullable) { x.fail = true; x.code = error_code::not_null_constraint_violation_exception; return false; }
            w[i] = {};
        }
        return true;
    }
    static char const* name_of(tr::write_kind k) {
        switch (k) {
            case tr::write_kind::insert: return "INSERT";
            case tr::write_kind::insert_skip: return "INSERT IF NOT EXISTS";
            case tr::write_kind::insert_overwrite: return "INSERT OR REPLACE";
            case tr::write_kind::update: return "UPDATE";
            default: return "DELETE";
        }
    }
    tr::write_kind insert_kind() { return r_.coin(50) ? tr::write_kind::insert : r_.coin() ? tr::write_kind::insert_skip : tr::write_kind::insert_overwrite; }
    std::string insert_values(std::size_t ti, expected& x) {
        auto& t = d_.tables[ti];
        auto wk = insert_kind();
        auto cs = columns_given(t);
        std::size_t n = 1 + r_.below(5);
        std::vector<std::vector<cell>> cells;
        std::vector<std::pair<row, std::vector<cell>>> rows;
        bool on = true;
        for (std::size_t i = 0; i < n; ++i) {
            row w(t.cols.size());
            std::vector<cell> cc;
            bool bad = false;
            for (auto c : cs) {
                auto v = literal_for(t.cols[c]);
                // meet an existing row
                if (! x.rows.empty() && ! v.fail && r_.coin(12)) { v.k = t.cols[c].f.k; v.given = v.v = r_.pick(x.rows)[c]; }
                w[c] = v.v;
                cc.push_back(v);
            }
            if (! x.rows.empty() && wk != tr::write_kind::insert && r_.coin(60)) {
                auto& o = r_.pick(x.rows);
                for (std::size_t k = 0; k < cs.size(); ++k) for (auto& p : t.pk.keys) if (p.first == cs[k] && ! cc[k].fail) { cc[k] = {t.cols[cs[k]].f.k, o[cs[k]], o[cs[k]]}; w[cs[k]] = o[cs[k]]; }
            }
            if (on) {
                // keys are completed before the values
                error_code code{};
                std::set<std::size_t> keys;
                for (auto& p : t.pk.keys) keys.insert(p.first);
                for (auto& v : cc) if (v.fail) { bad = true; code = v.code; }
                if (bad) {
                    std::set<error_code> codes;
                    for (auto& v : cc) if (v.fail) codes.insert(v.code);
                    expected y;
                    row z = w;
                    if (! complete(t, cs, z, y)) codes.insert(y.code);
                    x.fail = true;
                    x.code = codes.size() == 1 ? code : error_code{};
                    on = false;
                } else if (! complete(t, cs, w, x) || ! insert_row(t, wk, w, x)) on = false;
            }
            cells.push_back(std::move(cc));
        }
        x.text = std::string{name_of(wk)} + " " + t.name + " values x" + std::to_string(n);
        return e_.put(x.text, [cells, cs, name = t.name, cols = t.cols, wk](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            auto p = env.schema.shared_storage_provider();
            auto tb = p->find_table(name);
            yugawara::binding::factory b{};
            std::vector<tr::details::values_row> vr;
            for (auto& cc : cells) {
                std::vector<eptr> e;
                for (auto& c : cc) e.push_back(literal(env, c.k, c.given));
                vr.emplace_back(std::move(e));
            }
            std::vector<var> cv;
            for (auto i : cs) for (auto& d : tb->columns()) if (d.simple_name() == cols[i].name) cv.push_back(b(d));
            return std::make_unique<tst::write>(wk, b(*p->find_primary_index(*tb)), std::move(cv), std::move(vr));
        });
    }
    // the sources of a plan read the other tables, or nothing stored
    std::string insert_select(std::size_t ti, expected& x) {
        auto wk = insert_kind();
        auto s = r_.next();
        auto before = x.rows;
        auto fresh = [this, ti, wk, s, before, &x](yugawara::compile_environment& env) {
            auto& t = d_.tables[ti];
            vh::rng g{s};
            auto pool = d_.pool;
            std::vector<table> others;
            for (std::size_t i = 0; i < d_.tables.size(); ++i) if (i != ti) { others.push_back(d_.tables[i]); others.back().rows = current_[i]; }
            plan_builder pb{env};
            plan_gen gen{g, pb, others, pool};
            auto f = others.empty() || g.coin(40) ? gen.values_flow() : gen.scan_flow();
            if (g.coin(40)) gen.filter(f);
            std::vector<std::size_t> cs;
            for (std::size_t i = 0; i < t.cols.size(); ++i) if (! t.defaults[i] || g.coin()) cs.push_back(i);
            if (cs.empty()) cs.push_back(0);
            std::vector<tr::write::column> m;
            std::vector<std::size_t> from;
            for (auto c : cs) {
                std::vector<std::size_t> fit;
                for (std::size_t k = 0; k < f.cols.size(); ++k) {
                    auto& fd = f.cols[k].f;
                    auto& td = t.cols[c].f;
                    if (fd.k != td.k) continue;
                    if (td.k == kind::decimal && (fd.p != td.p || fd.s != td.s)) continue;
                    if ((td.k == kind::character || td.k == kind::octet) && (fd.len != td.len || fd.varying != td.varying)) continue;
                    fit.push_back(k);
                }
                if (! fit.empty() && g.coin(85)) from.push_back(g.pick(fit));
                else {
                    auto d = t.cols[c].f;
                    auto v = pool.get(g, d, 20);
                    auto sv = pb.stream(stream_type(d));
                    std::vector<tr::project::column> pc;
                    pc.emplace_back(sv, literal(pb.env, d.k, v));
                    gen.after<tr::project>(f, std::move(pc));
                    f.cols.push_back({sv, d});
                    for (auto& w : f.rows) w.push_back(v);
                    from.push_back(f.cols.size() - 1);
                }
                m.emplace_back(f.cols[from.back()].v, pb.b(find_column(pb, t, c)));
            }
            auto rel = pb.b(find_index(pb, t, nullptr));
            gen.after<tr::write>(f, wk, rel, std::vector<tr::write::key>{}, std::move(m));
            x = {};
            x.rows = before;
            x.text = std::string{name_of(wk)} + " " + t.name + " select " + gen.out.text;
            std::vector<row> in;
            for (auto& w : f.rows) {
                row z(t.cols.size());
                bool null = false;
                for (std::size_t k = 0; k < cs.size(); ++k) { z[cs[k]] = w[from[k]]; if (z[cs[k]].null && ! t.cols[cs[k]].f.nullable) null = true; }
                in.push_back(z);
                if (null) any_null_ = true;
            }
            select_cs_ = cs;
            select_rows_ = std::move(in);
            return std::move(pb.stmt);
        };
        auto text = e_.put("INSERT SELECT", [=, this, &x](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            any_null_ = false;
            auto st = fresh(env);
            // duplicates among the source rows make the outcome depend on their order, which is that of the source
            bool on = true;
            auto& t2 = d_.tables[ti];
            std::vector<row> seen;
            bool dup = false;
            for (auto& w : select_rows_) { auto z = w; expected y; if (complete(t2, select_cs_, z, y)) { if (find_row(t2, seen, z)) dup = true; seen.push_back(z); } }
            for (auto w : select_rows_) {
                if (! on) break;
                bool null = false;
                for (auto c : select_cs_) if (w[c].null && ! t2.cols[c].f.nullable) null = true;
                if (! complete(t2, select_cs_, w, x)) { on = false; break; }
                if (null) { x.fail = true; x.code = error_code::not_null_constraint_violation_exception; on = false; break; }
                on = insert_row(t2, wk, w, x);
            }
            // which of several errors comes first depends on the order of the rows
            if (x.fail && any_null_) x.code = {};
            ambiguous_ = dup && wk != tr::write_kind::insert;
            return st;
        });
        return text;
    }
public:
    std::uint64_t seed_{};
private:
    std::vector<std::size_t> select_cs_{};
    std::vector<row> select_rows_{};
    bool any_null_{}, ambiguous_{};
    std::vector<std::vector<row>> current_{};

    std::string change(std::size_t ti, bool del, expected& x) {
        auto& t = d_.tables[ti];
        auto s = r_.next();
        auto before = x.rows;
        return e_.put(del ? "DELETE" : "UPDATE", [=, this, &x, &t](yugawara::compile_environment& env) -> std::unique_ptr<tst::statement> {
            vh::rng g{s};
            auto pool = d_.pool;
            x = {};
            x.rows = before;
            ambiguous_ = false;
            plan_builder pb{env};
            plan_gen gen{g, pb, d_.tables, pool};
            index_def const* ix = t.idxs.empty() || g.coin() ? nullptr : &g.pick(t.idxs);
            auto f = whole(pb, gen, t, ix);
            f.rows = by_index(t, ix ? *ix : t.pk, before);
            if (g.coin(80)) gen.filter(f);
            std::vector<tr::write::key> keys;
            for (auto& k : t.pk.keys) keys.emplace_back(f.cols[k.first].v, pb.b(find_column(pb, t, k.first)));
            std::vector<tr::write::column> m;
            std::vector<std::pair<std::size_t, std::size_t>> set;
            bool keyed = false;
            if (! del) {
                std::vector<std::size_t> cs;
                for (std::size_t c = 0; c < t.cols.size(); ++c) {
                    bool key = false;
                    for (auto& k : t.pk.keys) key = key || k.first == c;
                    if (g.coin(key ? 12 : 50)) { cs.push_back(c); keyed = keyed || key; }
                }
                if (cs.empty()) { cs.push_back(t.cols.size() - 1); for (auto& k : t.pk.keys) keyed = keyed || k.first == cs[0]; }
                for (auto c : cs) {
                    auto d = t.cols[c].f;
                    std::optional<std::size_t> src;
                    if (g.coin(50) && (d.k == kind::int4 || d.k == kind::int8 || d.k == kind::date || d.k == kind::float8 || d.k == kind::float4)) {
                        auto e = gen.expression(f, d.k, static_cast<int>(g.below(3)) + 1);
                        bool good = e.has_value();
                        if (good && (d.k == kind::float4 || d.k == kind::float8)) for (auto& v : e->second) good = good && plain_float(v.v);
                        if (good) {
                            auto v = pb.stream(xt::type_of(d.k));
                            std::vector<tr::project::column> pc;
                            pc.emplace_back(v, gen.build(e->first, f));
                            gen.after<tr::project>(f, std::move(pc));
                            fdesc pd; pd.k = d.k;
                            f.cols.push_back({v, pd});
                            for (std::size_t j = 0; j < f.rows.size(); ++j) f.rows[j].push_back(e->second[j].v);
                            src = f.cols.size() - 1;
                            vh::event("set to an expression");
                        }
                    }
                    if (! src && g.coin(30)) for (std::size_t k = 0; k < t.cols.size(); ++k) {
                        auto& o = t.cols[k].f;
                        if (k != c && o.k == d.k && o.len == d.len && o.varying == d.varying && o.p == d.p && o.s == d.s) { src = k; vh::event("set to another column"); break; }
                    }
                    if (! src) {
                        bool null = ! d.nullable && g.coin(2);
                        auto v = null ? val{} : pool.get(g, d, 20);
                        auto y = pb.stream(stream_type(d));
                        std::vector<tr::project::column> pc;
                        pc.emplace_back(y, literal(pb.env, d.k, v));
                        gen.after<tr::project>(f, std::move(pc));
                        f.cols.push_back({y, d});
                        for (auto& w : f.rows) w.push_back(v);
                        src = f.cols.size() - 1;
                    }
                    m.emplace_back(f.cols[*src].v, pb.b(find_column(pb, t, c)));
                    set.emplace_back(c, *src);
                }
            }
            x.text = std::string{del ? "DELETE " : "UPDATE "} + t.name + (ix ? " by " + ix->name : "") + (keyed ? " (key)" : "") + " " + gen.out.text;
            for (auto& w : f.rows) {
                row old(w.begin(), w.begin() + static_cast<long>(t.cols.size()));
                auto at = find_row(t, x.rows, old);
                if (! at) { x.fail = true; x.code = {}; break; }
                if (del) { x.rows.erase(x.rows.begin() + static_cast<long>(*at)); x.deleted = x.deleted.value_or(0) + 1; continue; }
                auto now = x.rows[*at];
                bool bad = false;
                for (auto& [c, from] : set) { if (w[from].null && ! t.cols[c].f.nullable) bad = true; now[c] = w[from]; }
                if (bad) { x.fail = true; x.code = error_code::not_null_constraint_violation_exception; break; }
                if (keyed) {
                    auto rest = x.rows;
                    rest.erase(rest.begin() + static_cast<long>(*at));
                    if (find_row(t, rest, now)) { x.fail = true; x.code = error_code::unique_constraint_violation_exception; break; }
                    vh::event("rows moved to another key");
                }
                x.rows[*at] = now;
                x.updated = x.updated.value_or(0) + 1;
            }
            if (! keyed && ! x.fail && g.coin(40)) {
                // rows are handed to several writing tasks
                f = gen.sorted(std::move(f), false, false, false);
                vh::event("parallel writers");
                keys.clear();
                m.clear();
                for (auto& k : t.pk.keys) keys.emplace_back(f.cols[k.first].v, pb.b(find_column(pb, t, k.first)));
                for (auto& [c, from] : set) m.emplace_back(f.cols[from].v, pb.b(find_column(pb, t, c)));
            }
            auto rel = pb.b(find_index(pb, t, nullptr));
            gen.after<tr::write>(f, del ? tr::write_kind::delete_ : tr::write_kind::update, rel, std::move(keys), std::move(m));
            return std::move(pb.stmt);
        });
    }
    static std::optional<std::int64_t> counter(outcome const& o, jogasaki::counter_kind k) {
        std::optional<std::int64_t> n;
        if (o.stats) o.stats->each_counter([&](jogasaki::counter_kind kk, jogasaki::request_execution_counter const& c) { if (kk == k) n = c.count(); });
        return n;
    }
    void transaction() {
        api::transaction_option opt{};
        bool ro = r_.coin(4);
        if (ro) opt.readonly(true);
        auto tx = e_.begin(opt);
        current_ = committed_;
        log_ = "world " + std::to_string(seed_) + ": " + (ro ? "read only: " : "");
        auto n = 1 + r_.below(6);
        bool dead = false;
        for (std::size_t i = 0; i < n; ++i) {
            auto ti = r_.below(d_.tables.size());
            auto& t = d_.tables[ti];
            expected x;
            x.rows = current_[ti];
            auto k = r_.below(100);
            any_null_ = ambiguous_ = false;
            g_sorted_ = r_.coin();
            auto text = r_.coin(5) ? failing(ti, x) : k < 35 ? insert_values(ti, x) : k < 55 ? insert_select(ti, x) : k < 80 ? change(ti, false, x) : change(ti, true, x);
            // a failure of the transaction engine somewhere in the statement
            std::atomic<int> left{-1};
            std::atomic<bool> hit{false};
            std::string op;
            auto code = SC::OK;
            if (r_.coin(15)) {
                static const std::vector<std::string> ops{"content_put", "content_put", "content_delete", "content_get", "content_scan"};
                static const std::vector<SC> codes{SC::ERR_ABORTED_RETRYABLE, SC::ERR_CONFLICT_ON_WRITE_PRESERVE, SC::ERR_WRITE_WITHOUT_WRITE_PRESERVE, SC::ERR_INVALID_KEY_LENGTH, SC::ERR_READ_AREA_VIOLATION, SC::ERR_IO_ERROR, SC::ERR_RESOURCE_LIMIT_REACHED};
                op = r_.pick(ops);
                code = r_.pick(codes);
                left = static_cast<int>(r_.below(5));
                memkvs::ctl().fault = [&](char const* what) {
                    if (op == what && left-- == 0) { hit = true; return code; }
                    return SC::OK;
                };
            }
            auto o = e_.exec(tx, text);
            memkvs::ctl().fault = {};
            yugawara::statement_registry::instance().erase(text);
            log_ += "[" + x.text + "] ";
            std::string where = log_;
            if (hit && ro) log_ += std::string{"("} + op + " gave " + std::to_string(static_cast<int>(code)) + ") ";
            vh::event(hit ? "statements with a fault" : "statements");
            if (ro) {
                VH_CHECK(! o.ok() || (! x.inserted && ! x.updated && ! x.merged && ! x.deleted), "write.read_only", where << "writes in a read only transaction");
                if (! o.ok()) { dead = true; break; }
                continue;
            }
            if (hit && ! ro) {
                log_ += std::string{"("} + op + " gave " + std::to_string(static_cast<int>(code)) + ") ";
                where = log_;
                VH_CHECK(! o.ok(), "write.fault_lost", where << "the statement succeeded although the storage refused an operation");
                VH_CHECK(o.code != error_code{} && o.code != error_code::none, "write.fault_code", where << "no error is told, status " << static_cast<int>(o.st));
                vh::event("op refused: " + op);
            } else {
                VH_CHECK(o.ok() != x.fail, x.fail ? "write.error_lost" : "write.status", where << (x.fail ? "succeeded instead of failing" : "failed") << ": " << static_cast<int>(o.st) << " " << o.message);
                if (x.fail) {
                    if (x.code != error_code{}) VH_CHECK(o.code == x.code, "write.error_code", where << "fails with " << o.message << " (" << static_cast<int>(o.code) << ") instead of " << static_cast<int>(x.code));
                    vh::event("statements failed as expected");
                }
            }
            if (! o.ok()) {
                // the transaction is over
                dead = true;
                auto text2 = select(t, nullptr);
                auto o2 = e_.exec(tx, text2);
                yugawara::statement_registry::instance().erase(text2);
                VH_CHECK(o2.st == status::err_inactive_transaction, "write.alive_after_error", where << "the transaction goes on after a failed statement: " << static_cast<int>(o2.st) << " " << o2.message);
                break;
            }
            auto cnt = [&](jogasaki::counter_kind kk, std::optional<std::int64_t> want, char const* what) {
                auto got = counter(o, kk);
                if (got.value_or(0) != want.value_or(0) && ! ambiguous_) look(tx, ti, x.rows, "within the transaction");
                VH_CHECK(got.value_or(0) == want.value_or(0), "write.counter", where << what << " " << got.value_or(0) << " instead of " << want.value_or(0));
            };
            cnt(jogasaki::counter_kind::inserted, x.inserted, "inserted");
            cnt(jogasaki::counter_kind::updated, x.updated, "updated");
            cnt(jogasaki::counter_kind::merged, x.merged, "merged");
            cnt(jogasaki::counter_kind::deleted, x.deleted, "deleted");
            vh::event("rows inserted", static_cast<std::uint64_t>(x.inserted.value_or(0)));
            vh::event("rows updated", static_cast<std::uint64_t>(x.updated.value_or(0)));
            vh::event("rows merged", static_cast<std::uint64_t>(x.merged.value_or(0)));
            vh::event("rows deleted", static_cast<std::uint64_t>(x.deleted.value_or(0)));
            if (x.inserted || x.updated || x.merged || x.deleted) { vh::nontrivial(vh::hash(log_ + std::to_string(x.rows.size()))); vh::sample(x.text); }
            if (ambiguous_) {
                // rows of the source with the same key: which of them is stored depends on their order
                vh::event("repeated keys");
                adopt(tx, ti, x.rows);
            }
            current_[ti] = x.rows;
            if (r_.coin(50)) look(tx, ti, x.rows, "within the transaction");
        }
        if (dead) {
            auto rc = e_.commit(tx);
            VH_CHECK(rc != status::ok, "write.commit_after_error", log_ << "commit succeeds after a failed statement");
            vh::event("transactions failed");
        } else if (r_.coin(30)) {
            auto rc = e_.abort(tx);
            VH_CHECK(rc == status::ok, "write.abort", log_ << "rollback: " << static_cast<int>(rc));
            vh::event("transactions rolled back");
            log_ += "rollback";
        } else {
            auto rc = e_.commit(tx);
            VH_CHECK(rc == status::ok, "write.commit", log_ << "commit: " << static_cast<int>(rc));
            committed_ = current_;
            vh::event("transactions committed");
            log_ += "commit";
        }
        auto tx2 = e_.begin();
        for (std::size_t i = 0; i < d_.tables.size(); ++i) {
            auto& t = d_.tables[i];
            auto c = stored(t.name);
            VH_CHECK(c == committed_[i].size(), "write.stored", log_ << ": " << t.name << " holds " << c << " records for " << committed_[i].size() << " rows");
            for (auto& y : t.idxs) {
                auto k = stored(y.name);
                VH_CHECK(k == committed_[i].size(), "write.index_entries", log_ << ": index " << y.name << " holds " << k << " entries for " << committed_[i].size() << " rows");
            }
            look(tx2, i, committed_[i], "afterwards");
        }
        (void) e_.abort(tx2);
    }
};
static bool tsan = false;
static void one(std::uint64_t seed, bool threads, std::size_t txs) {
    vh::rng r{seed};
    auto e = std::make_unique<engine>(threads ? 1 + r.below(5) : 0);
    auto& c = *e->cfg;
    c.inplace_dag_schedule(r.coin());
    c.stealing_enabled(r.coin(70));
    c.scan_block_size(r.coin() ? 1 + r.below(5) : 100);
    c.scan_yield_interval(r.coin() ? 0 : 1);
    c.try_insert_on_upserting_secondary(r.coin());
    c.enable_hybrid_scheduler(r.coin());
    e->start();
    vh::phase("world " + std::to_string(seed));
    { world w{r, *e, threads}; w.seed_ = seed; vh::guarded("world", [&] { w.run(txs); }); }
    memkvs::ctl().fault = {};
    VH_EXPECT(memkvs::ctl().open_iters == 0, "write.iterators", "world " << seed << ": " << memkvs::ctl().open_iters << " iterators are left open");
    e.reset();
    VH_EXPECT(memkvs::ctl().open_txs == 0, "write.transactions", "world " << seed << ": " << memkvs::ctl().open_txs << " transactions are left open");
}
static void body() {
    if (auto* p = getenv("DB")) { one(std::strtoull(p, nullptr, 10), getenv("THREADS") != nullptr, 25); return; }
    vh::rng r{vh::seed() * 7561 + (tsan ? 5 : 0)};
    auto n = tsan ? vh::scale(40, 600) : vh::scale(90, 1500);
    for (std::size_t i = 0; i < n; ++i) vh::guarded("world", [&] { one(r.next(), tsan || i % 3 == 0, tsan ? 12 : 25); });
}
int main(int argc, char** argv) {
    google::InitGoogleLogging(argv[0]);
    if (! getenv("GLOG_v")) FLAGS_minloglevel = 3;
    tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c34_write", "a statement which changes rows", body);
}
