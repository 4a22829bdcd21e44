// Kinds and states are printed by the names operators, logs and tests rely on; carriers of errors keep what they were given.
#include "vh.h"
#include <jogasaki/data/any_sequence_stream_status.h>
#include <jogasaki/executor/file/time_unit_kind.h>
#include <jogasaki/executor/function/table_valued_function_kind.h>
#include <jogasaki/executor/process/impl/region_id.h>
#include <jogasaki/executor/sequence/exception.h>
#include <jogasaki/key_distribution_kind.h>
#include <jogasaki/kvs/coding_context.h>
#include <jogasaki/lob/lob_data_provider.h>
#include <jogasaki/lob/lob_reference_kind.h>
#include <jogasaki/model/step_kind.h>
#include <jogasaki/model/task.h>
#include <jogasaki/plan/plan_exception.h>
#include <jogasaki/error/error_info.h>
#include <jogasaki/scheduler/hybrid_execution_mode.h>
#include <jogasaki/scheduler/step_state.h>
#include <jogasaki/serializer/entry_type.h>
#include <jogasaki/serializer/value_input_exception.h>
#include <jogasaki/utils/storage_metadata_exception.h>
using namespace vh;
using namespace jogasaki;
namespace {
template <class, class = void> struct printable : std::false_type {};
template <class T> struct printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<T>())>> : std::true_type {};
template <class E> void names(char const* what, std::vector<std::pair<E, char const*>> const& v) {
    std::set<std::string> seen;
    for (auto& [e, n] : v) {
        std::string got{to_string_view(e)};
        VH_EXPECT(got == n, std::string("name.") + what, "printed as " << got << ", not " << n);
        VH_EXPECT(seen.insert(got).second, std::string("name.distinct.") + what, got);
        if constexpr (printable<E>::value && !std::is_convertible_v<E, int>) {
            std::ostringstream o;
            o << std::hex << e << "|";
            VH_EXPECT(o.str() == got + "|", std::string("print.") + what, o.str());
        }
        nontrivial(hash(std::string(what) + "." + n));
        done();
    }
    sample(std::string(what) + ": " + std::to_string(v.size()) + " names", 20);
}
void fixed() {
    using ss = data::any_sequence_stream_status;
    names<ss>("stream status", {{ss::ok, "ok"}, {ss::error, "error"}, {ss::end_of_stream, "end_of_stream"}, {ss::not_ready, "not_ready"}});
    using tu = executor::file::time_unit_kind;
    names<tu>("time unit", {{tu::unspecified, "unspecified"}, {tu::nanosecond, "nanosecond"}, {tu::microsecond, "microsecond"}, {tu::millisecond, "millisecond"}, {tu::second, "second"}});
    using tf = executor::function::table_valued_function_kind;
    names<tf>("table function", {{tf::undefined, "undefined"}, {tf::builtin, "builtin"}, {tf::user_defined, "user_defined"}});
    using rk = executor::process::impl::region_kind;
    names<rk>("region", {{rk::undefined, "undefined"}, {rk::basic_block, "basic_block"}});
    using kd = key_distribution_kind;
    names<kd>("key distribution", {{kd::undefined, "undefined"}, {kd::simple, "simple"}, {kd::uniform, "uniform"}, {kd::sampling, "sampling"}});
    using lp = lob::lob_data_provider;
    names<lp>("lob provider", {{lp::undefined, "undefined"}, {lp::datastore, "datastore"}, {lp::sql, "sql"}, {lp::relay_service_session, "relay_service_session"}});
    VH_EXPECT(static_cast<int>(lp::undefined) == 0 && static_cast<int>(lp::datastore) == 1 && static_cast<int>(lp::sql) == 2 && static_cast<int>(lp::relay_service_session) == 3, "lob.provider.numbers", "");
    using sk = model::step_kind;
    names<sk>("step", {{sk::process, "process"}, {sk::forward, "forward"}, {sk::broadcast, "broadcast"}, {sk::group, "group"}, {sk::aggregate, "aggregate"}});
    using tk = model::task_kind;
    names<tk>("task", {{tk::main, "main"}, {tk::pre, "pre"}});
    using tr = model::task_result;
    names<tr>("task result", {{tr::proceed, "proceed"}, {tr::complete, "complete"}, {tr::complete_and_teardown, "complete_and_teardown"}, {tr::sleep, "sleep"}, {tr::yield, "yield"}});
    using tt = model::task_transaction_kind;
    names<tt>("task transaction", {{tt::none, "none"}, {tt::in_transaction, "in_transaction"}, {tt::sticky, "sticky"}});
    using hm = scheduler::hybrid_execution_mode_kind;
    names<hm>("hybrid mode", {{hm::undefined, "undefined"}, {hm::serial, "serial"}, {hm::stealing, "stealing"}});
    using st = scheduler::step_state_kind;
    std::vector<std::pair<st, char const*>> states{{st::uninitialized, "uninitialized"}, {st::created, "created"}, {st::activated, "activated"}, {st::preparing, "preparing"}, {st::prepared, "prepared"}, {st::running, "running"}, {st::completing, "completing"}, {st::completed, "completed"}, {st::deactivated, "deactivated"}};
    names<st>("step state", states);
    for (std::size_t i = 0; i < states.size(); ++i)
        for (std::size_t j = 0; j < states.size(); ++j) {
            auto a = states[i].first, b = states[j].first;
            using namespace scheduler;
            VH_EXPECT(scheduler::operator<(a, b) == (i < j) && scheduler::operator>(a, b) == (i > j) && scheduler::operator<=(a, b) == (i <= j) && scheduler::operator>=(a, b) == (i >= j), "state.order", states[i].second << " against " << states[j].second);
            done();
        }
    using ts = scheduler::task_state_kind;
    names<ts>("task state", {{ts::uninitialized, "uninitialized"}, {ts::running, "running"}, {ts::completed, "completed"}});
    using et = serializer::entry_type;
    names<et>("value entry", {{et::end_of_contents, "end_of_contents"}, {et::null, "null"}, {et::int_, "int_"}, {et::float4, "float4"}, {et::float8, "float8"}, {et::decimal, "decimal"}, {et::character, "character"}, {et::octet, "octet"}, {et::bit, "bit"}, {et::date, "date"}, {et::time_of_day, "time_of_day"}, {et::time_of_day_with_offset, "time_of_day_with_offset"}, {et::time_point, "time_point"}, {et::time_point_with_offset, "time_point_with_offset"}, {et::datetime_interval, "datetime_interval"}, {et::row, "row"}, {et::array, "array"}, {et::clob, "clob"}, {et::blob, "blob"}});
    using rc = serializer::value_input_exception::reason_code;
    names<rc>("input error", {{rc::buffer_underflow, "buffer_underflow"}, {rc::unrecognized_entry_type, "unrecognized_entry_type"}, {rc::unsupported_entry_type, "unsupported_entry_type"}, {rc::value_out_of_range, "value_out_of_range"}});
}
void carriers(rng& r) {
    auto text = r.bytes(r.below(60));
    for (auto& c : text) if (c == 0) c = 'z';
    auto s = static_cast<status>(r.pick(std::vector<int>{0, 1, -1, -2, -100, -1000}));
    auto code = static_cast<error_code>(r.pick(std::vector<int>{0, 1000, 1001, 2000, 3000, 4000}));
    {
        auto msg = std::make_unique<std::string>(text);
        executor::sequence::exception e{s, *msg};
        auto f = e;
        msg.reset();
        VH_CHECK(e.get_status() == s && text == e.what() && f.get_status() == s && text == f.what(), "sequence.exception", esc(text));
        auto g = std::move(f);
        VH_CHECK(g.get_status() == s && text == g.what(), "sequence.exception.move", esc(text));
        try { throw g; } catch (std::exception const& x) { VH_CHECK(text == x.what(), "sequence.exception.thrown", esc(text)); }
        utils::storage_metadata_exception h{s, code, text};
        auto i = h;
        VH_CHECK(i.get_status() == s && i.get_code() == code && text == i.what(), "metadata.exception", esc(text));
        auto info = std::make_shared<error::error_info>(code, text, "file", "1", "");
        plan::plan_exception p{info};
        auto q = p;
        VH_CHECK(q.info() == info && text == q.what(), "plan.exception", esc(q.what()));
        VH_CHECK(std::string_view(plan::plan_exception{}.what()).empty() && plan::plan_exception{nullptr}.info() == nullptr && std::string_view(plan::plan_exception{nullptr}.what()).empty(), "plan.exception.empty", "");
    }
    kvs::coding_context c{};
    bool w = false;
    VH_CHECK(!c.coding_for_write(), "coding.default", "");
    for (int i = 0; i < 4; ++i) { w = r.coin(); c.coding_for_write(w); auto d = c; VH_CHECK(d.coding_for_write() == w, "coding.write", w); }
    using executor::process::impl::region_id;
    using executor::process::impl::region_kind;
    std::size_t x = r.below(4), y = r.below(4);
    bool ka = r.coin(), kb = r.coin();
    region_id a = ka ? region_id{x} : region_id{region_kind::undefined, x}, b = kb ? region_id{region_kind::basic_block, y} : region_id{region_kind::undefined, y};
    VH_CHECK((a == b) == (ka == kb && x == y) && (a != b) == !(ka == kb && x == y) && static_cast<bool>(a) == ka && a.index() == x && b.index() == y && (a.kind() == region_kind::basic_block) == ka, "region", x << " " << y);
    VH_CHECK(!region_id{} && region_id{}.index() == 0, "region.default", "");
    std::ostringstream o;
    o << a;
    VH_CHECK(o.str() == (ka ? "basic_block:" : "undefined:") + std::to_string(x), "region.print", o.str());
    nontrivial(hash(text));
}
}
int main(int argc, char** argv) {
    return vh::main(argc, argv, "c21_names", "every kind and state of 15 families, every pair of step states, error carriers with generated text; distinct by name or text", [] {
        rng r(seed() * 31 + 21);
        fixed();
        for (std::size_t i = 0; i < scale(20000, 500000); ++i) guarded("carrier", [&] { carriers(r); });
    });
}
