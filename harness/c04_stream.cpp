// UDF result streams: sequential model, and recorded concurrent histories checked offline.
#define VH_PERTURB_IMPL
#include "perturb.h"
#include <deque>
#include <jogasaki/udf/generic_record_impl.h>
using namespace vh;
using namespace plugin::udf;
using namespace std::chrono_literals;
using status = generic_record_stream_status;
namespace {
std::unique_ptr<generic_record_impl> rec(std::int64_t producer, std::int64_t seq, bool err) {
    auto p = std::make_unique<generic_record_impl>();
    p->add_int8(producer);
    p->add_int8(seq);
    if (err) p->set_error(error_info{grpc::StatusCode::ABORTED, "e" + std::to_string(seq)});
    return p;
}
struct got { std::int64_t producer{}, seq{}; bool err{}; };
got read(generic_record_impl const& r) {
    auto c = r.cursor();
    auto a = c->fetch_int8();
    auto b = c->fetch_int8();
    VH_CHECK(a && b && !c->has_next(), "record", "delivered record is damaged: " << r.debug_string());
    if (r.error()) VH_CHECK(r.error()->message() == "e" + std::to_string(*b), "record", "error of another record");
    return {*a, *b, r.error().has_value()};
}
void sequential(rng& r, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) guarded("sequential", [&] {
        auto s = std::make_unique<generic_record_stream_impl>();
        std::deque<got> q;
        bool eos = false;
        std::int64_t seq = 0;
        std::uint64_t h = 0;
        std::size_t delivered = 0;
        auto ops = 5 + r.below(60);
        for (std::size_t k = 0; k < ops; ++k) {
            auto o = r.below(30);
            h = h * 31 + o;
            if (o < 12) {
                bool e = r.coin(15);
                s->push(rec(1, ++seq, e));
                if (!eos) q.push_back({1, seq, e});
            } else if (o < 24) {
                generic_record_impl out;
                out.add_int4(9); out.add_int8(8);  // leftovers of an earlier row
                status st;
                bool blocking = false;
                if (o < 18) st = s->try_next(out);
                else if (o < 21 || (q.empty() && !eos)) st = s->next(out, std::chrono::milliseconds(o == 20 ? 1 : 0));
                else { blocking = true; st = s->next(out, std::nullopt); }
                if (!q.empty()) {
                    VH_CHECK(st == (q.front().err ? status::error : status::ok), "status", "status " << (int) st << " with a queued record, blocking=" << blocking);
                    auto g = read(out);
                    VH_CHECK(g.seq == q.front().seq && g.err == q.front().err, "fifo", "got " << g.seq << " expected " << q.front().seq);
                    q.pop_front(); ++delivered;
                } else {
                    VH_CHECK(st == (eos ? status::end_of_stream : status::not_ready), "status", "status " << (int) st << " on an empty stream, eos=" << eos);
                }
            } else if (o == 24) { if (r.coin(25)) { s->end_of_stream(); eos = true; } }
            else if (o == 25) { if (r.coin(10)) { s->close(); eos = true; q.clear(); } }
            else if (o == 26 && r.coin(40)) {
                auto t = std::make_unique<generic_record_stream_impl>(std::move(*s));
                generic_record_impl out;
                VH_CHECK(s->try_next(out) == status::end_of_stream, "moved_from", "a moved-from stream is not at its end");
                s->push(rec(2, 1, false));
                VH_CHECK(s->next(out, std::nullopt) == status::end_of_stream, "moved_from", "a moved-from stream accepts records");
                s = std::move(t);
            } else if (o == 27 && r.coin(40)) {
                generic_record_stream_impl t;
                t.push(rec(3, 1, false));
                t = std::move(*s);
                generic_record_impl out;
                VH_CHECK(s->try_next(out) == status::end_of_stream, "moved_from", "a moved-from stream is not at its end (assign)");
                *s = std::move(t);
                auto& self = *s; *s = std::move(self);
            }
        }
        if (delivered > 1) nontrivial(h);
        event("seq_delivered", delivered);
    });
}
struct entry { int consumer; got g; std::uint64_t t0, t1; status st; };
std::atomic<std::uint64_t> clk{1};
std::uint64_t now() { return clk.fetch_add(1); }

void concurrent(rng& r, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) guarded("concurrent", [&] {
        int P = 1 + r.below(4), C = 1 + r.below(4);
        int per = 1 + r.below(i % 5 == 0 ? 400 : 40);
        int mode = r.below(6);  // 0..3 eos after all, 4 close at some point, 5 eos at some point
        perturb::level() = r.pick(std::vector<int>{0, 2, 10, 40});
        phase("concurrent P=" + std::to_string(P) + " C=" + std::to_string(C) + " per=" + std::to_string(per) + " mode=" + std::to_string(mode));
        generic_record_stream_impl s;
        std::vector<std::vector<entry>> logs(C);
        std::vector<std::vector<std::pair<std::uint64_t, std::uint64_t>>> pushes(P);
        std::atomic<std::uint64_t> end_begin{~0ULL}, end_done{~0ULL};
        std::atomic<int> started{0};
        std::vector<std::thread> ps, cs;
        for (int c = 0; c < C; ++c) cs.emplace_back([&, c, sd = r.next()] {
            rng q(sd);
            ++started; while (started < P + C) std::this_thread::yield();
            int style = q.below(4);
            generic_record_impl out;
            for (;;) {
                auto t0 = now();
                status st;
                if (style == 0) st = s.next(out, std::nullopt);
                else if (style == 1) { st = s.try_next(out); if (st == status::not_ready) { beat(); std::this_thread::yield(); continue; } }
                else if (style == 2) { st = s.next(out, std::chrono::milliseconds(q.below(3))); if (st == status::not_ready) { beat(); continue; } }
                else st = q.coin() ? s.next(out, std::nullopt) : s.next(out, std::chrono::milliseconds(20));
                auto t1 = now();
                if (st == status::not_ready) continue;
                beat();
                if (st == status::end_of_stream) { logs[c].push_back({c, {}, t0, t1, st}); break; }
                try { logs[c].push_back({c, read(out), t0, t1, st}); } catch (failure const&) {}
            }
            for (int k = 0; k < 3; ++k) {
                generic_record_impl o2;
                auto st = k % 2 ? s.try_next(o2) : s.next(o2, std::nullopt);
                if (st != status::end_of_stream) record_fail("after_end", "status " + std::to_string((int) st) + " after the end of the stream");
            }
        });
        for (int p = 0; p < P; ++p) ps.emplace_back([&, p, sd = r.next()] {
            rng q(sd);
            ++started; while (started < P + C) std::this_thread::yield();
            for (int k = 0; k < per; ++k) {
                auto t0 = now();
                s.push(rec(p, k, (p + k) % 11 == 3));
                pushes[p].emplace_back(t0, now());
                if (q.coin(5)) std::this_thread::yield();
            }
        });
        std::thread ender;
        auto finish = [&](bool close) {
            end_begin = now();
            if (close) s.close(); else s.end_of_stream();
            end_done = now();
        };
        if (mode >= 4) {
            auto spin = r.below(20000);
            ender = std::thread([&, spin] {
                while (started < P + C) std::this_thread::yield();
                for (volatile unsigned k = 0; k < spin; k = k + 1) {}
                finish(mode == 4);
            });
        }
        for (auto& t : ps) t.join();
        if (ender.joinable()) ender.join(); else finish(false);
        for (auto& t : cs) t.join();
        perturb::level() = 0;
        // offline judgement
        std::map<std::pair<std::int64_t, std::int64_t>, int> seen;
        std::size_t total = 0;
        std::uint64_t h = mode;
        for (int c = 0; c < C; ++c) {
            std::map<std::int64_t, std::int64_t> last;
            VH_CHECK(!logs[c].empty() && logs[c].back().st == status::end_of_stream, "termination", "consumer " << c << " saw no end");
            for (auto& e : logs[c]) {
                if (e.st == status::end_of_stream) {
                    VH_CHECK(e.t1 > end_begin, "early_end", "a reader saw the end before anyone ended the stream");
                    continue;
                }
                ++total;
                h = hash("", h * 131 + e.g.producer * 7 + c);
                VH_CHECK((e.st == status::error) == ((e.g.producer + e.g.seq) % 11 == 3) && (e.st == status::error) == e.g.err, "status", "error status differs from record");
                VH_CHECK((seen[{e.g.producer, e.g.seq}]++ == 0), "duplicate", "record " << e.g.producer << ":" << e.g.seq << " delivered twice");
                auto it = last.find(e.g.producer);
                VH_CHECK(it == last.end() || it->second < e.g.seq, "fifo", "reader " << c << " saw " << e.g.seq << " after " << it->second);
                last[e.g.producer] = e.g.seq;
                auto& pu = pushes[e.g.producer][e.g.seq];
                VH_CHECK(pu.first < e.t1, "causality", "delivered before the push");
                VH_CHECK(pu.first < end_done, "late_push", "record pushed after the end was delivered");
                if (mode == 4) VH_CHECK(e.t0 < end_done, "after_close", "record delivered by a read that began after close");
            }
        }
        // one reader never overtakes another: if the read of a ended before the read of b began,
        // then a must not have been pushed entirely after b by the same producer
        std::vector<std::vector<entry const*>> by(P);
        for (auto& l : logs) for (auto& e : l) if (e.st != status::end_of_stream) by[e.g.producer].push_back(&e);
        for (auto& v : by) {
            std::sort(v.begin(), v.end(), [](auto* a, auto* b) { return a->g.seq < b->g.seq; });
            std::uint64_t minEnd = ~0ULL;  // min t1 among later seqs must not be before t0 of an earlier one
            for (auto it = v.rbegin(); it != v.rend(); ++it) {
                VH_CHECK((*it)->t0 < minEnd, "fifo.real_time", "record " << (*it)->g.seq << " read after a later record had been read");
                minEnd = std::min(minEnd, (*it)->t1);
            }
        }
        if (mode < 4) VH_CHECK(total == static_cast<std::size_t>(P) * per, "lost", total << " of " << P * per << " records delivered");
        if (mode == 5) {
            // every record whose push returned before the end began must be delivered
            for (int p = 0; p < P; ++p) for (int k = 0; k < per; ++k)
                if (pushes[p][k].second < end_begin) VH_CHECK((seen.count({p, k}) == 1), "lost", "record " << p << ":" << k << " pushed before the end was lost");
        }
        nontrivial(h);
        event("delivered", total); event("pushed", P * per); event("mode" + std::to_string(mode)); 
        if (i % 200 == 3) sample("P=" + std::to_string(P) + " C=" + std::to_string(C) + " per=" + std::to_string(per) + " mode=" + std::to_string(mode) + " delivered=" + std::to_string(total));
    });
}
// readers blocked without a time limit must be woken by each single event
void wakeups(rng& r, std::size_t n) {
    for (std::size_t i = 0; i < n; ++i) guarded("wakeup", [&] {
        int kind = i % 5;
        phase("wakeup kind=" + std::to_string(kind));
        perturb::level() = r.pick(std::vector<int>{0, 20, 60});
        auto s = std::make_unique<generic_record_stream_impl>();
        int C = 1 + r.below(3);
        std::atomic<int> ok{0}, eos{0};
        std::vector<std::thread> cs;
        for (int c = 0; c < C; ++c) cs.emplace_back([&, st = s.get()] {
            generic_record_impl out;
            auto x = st->next(out, std::nullopt);
            if (x == status::end_of_stream) ++eos; else ++ok;
        });
        for (volatile unsigned k = 0; k < r.below(40000); k = k + 1) {}
        if (r.coin(30)) std::this_thread::sleep_for(200us);
        std::unique_ptr<generic_record_stream_impl> t;
        if (kind == 0) s->end_of_stream();
        else if (kind == 1) s->close();
        else if (kind == 2) for (int c = 0; c < C; ++c) s->push(rec(0, c, c == 1));
        else if (kind == 3) t = std::make_unique<generic_record_stream_impl>(std::move(*s));
        else { generic_record_stream_impl src; for (int c = 0; c < C; ++c) src.push(rec(0, c, false)); *s = std::move(src); }
        for (auto& x : cs) x.join();
        perturb::level() = 0;
        bool data = kind == 2 || kind == 4;
        VH_CHECK((data ? ok : eos) == C, "wakeup", "kind " << kind << ": " << ok << " data " << eos << " end of " << C);
        nontrivial(hash("w", i)); event("wakeup_kind" + std::to_string(kind));
    });
}
}
int main(int argc, char** argv) {
    bool tsan = argc > 1 && std::string_view(argv[1]) == "tsan";
    return vh::main(argc, argv, "c04_stream",
        "random operation sequences and P producers x C readers with perturbed locks; distinct by operation sequence or by the interleaving of deliveries",
        [tsan] {
            rng r(seed() * 77 + (tsan ? 5 : 4));
            sequential(r, tsan ? 2000 : scale(30000, 600000));
            wakeups(r, scale(tsan ? 400 : 1200, 20000));
            concurrent(r, scale(tsan ? 250 : 900, 20000));
            event("perturbations", perturb::hits());
        }, 60);
}
