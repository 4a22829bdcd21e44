#pragma once
#include <deque>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <vector>
#include <takatori/descriptor/aggregate_function.h>
#include <takatori/descriptor/function.h>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/variable.h>
#include <takatori/relation/graph.h>
#include <takatori/relation/sort_direction.h>
#include <takatori/scalar/expression.h>
#include <takatori/tree/tree_fragment_vector.h>
#include <takatori/util/optional_ptr.h>
// Stand-in for takatori's relational operators: what the engine reads from a compiled plan.
namespace takatori::relation {
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
enum class join_kind { inner, left_outer, full_outer, semi, anti, left_outer_at_most_one };
enum class apply_kind { cross, outer };
enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
constexpr std::string_view to_string_view(write_kind k) noexcept {
    switch (k) {
        case write_kind::insert: return "insert";
        case write_kind::insert_overwrite: return "insert_overwrite";
        case write_kind::insert_skip: return "insert_skip";
        case write_kind::update: return "update";
        default: return "delete";
    }
}
constexpr std::string_view to_string_view(join_kind k) noexcept {
    switch (k) {
        case join_kind::inner: return "inner";
        case join_kind::left_outer: return "left_outer";
        case join_kind::full_outer: return "full_outer";
        case join_kind::semi: return "semi";
        case join_kind::anti: return "anti";
        default: return "left_outer_at_most_one";
    }
}
constexpr std::string_view to_string_view(endpoint_kind k) noexcept {
    switch (k) {
        case endpoint_kind::unbound: return "unbound";
        case endpoint_kind::inclusive: return "inclusive";
        case endpoint_kind::exclusive: return "exclusive";
        case endpoint_kind::prefixed_inclusive: return "prefixed_inclusive";
        default: return "prefixed_exclusive";
    }
}
inline std::ostream& operator<<(std::ostream& out, write_kind k) { return out << to_string_view(k); }
inline std::ostream& operator<<(std::ostream& out, join_kind k) { return out << to_string_view(k); }
inline std::ostream& operator<<(std::ostream& out, endpoint_kind k) { return out << to_string_view(k); }
inline std::ostream& operator<<(std::ostream& out, apply_kind k) { return out << (k == apply_kind::cross ? "cross" : "outer"); }

namespace details {
class mapping_element {
public:
    mapping_element(descriptor::variable source, descriptor::variable destination) : s_(std::move(source)), d_(std::move(destination)) {}
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::variable s_, d_;
};
/// a variable and the expression that gives its value
class assignment {
public:
    assignment(descriptor::variable v, scalar::expression_ptr e) : v_(std::move(v)), e_(std::move(e)) {}
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
    [[nodiscard]] scalar::expression const& value() const noexcept { return *e_; }
private:
    descriptor::variable v_;
    std::shared_ptr<scalar::expression> e_;
};
using search_key_element = assignment;
class endpoint {
public:
    using key = search_key_element;
    endpoint() = default;
    endpoint(endpoint_kind k, std::vector<key> keys) : kind_(k), keys_(std::make_shared<tree::tree_fragment_vector<key>>(std::move(keys))) {}
    [[nodiscard]] endpoint_kind kind() const noexcept { return kind_; }
    [[nodiscard]] tree::tree_fragment_vector<key> const& keys() const noexcept { return *keys_; }
    explicit operator bool() const noexcept { return kind_ != endpoint_kind::unbound; }
private:
    endpoint_kind kind_{endpoint_kind::unbound};
    std::shared_ptr<tree::tree_fragment_vector<key>> keys_{std::make_shared<tree::tree_fragment_vector<key>>()};
};
class apply_column {
public:
    apply_column(std::size_t position, descriptor::variable v) : position_(position), v_(std::move(v)) {}
    [[nodiscard]] std::size_t position() const noexcept { return position_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
private:
    std::size_t position_;
    descriptor::variable v_;
};
class emit_element {
public:
    emit_element(descriptor::variable source, std::optional<std::string> name = {}) : s_(std::move(source)), n_(std::move(name)) {}  // NOLINT
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] std::optional<std::string> const& name() const noexcept { return n_; }
private:
    descriptor::variable s_;
    std::optional<std::string> n_;
};
class aggregate_element {
public:
    aggregate_element(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d) :
        f_(std::move(f)), a_(std::move(a)), d_(std::move(d)) {}
    [[nodiscard]] descriptor::aggregate_function const& function() const noexcept { return f_; }
    [[nodiscard]] std::vector<descriptor::variable> const& arguments() const noexcept { return a_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::aggregate_function f_;
    std::vector<descriptor::variable> a_;
    descriptor::variable d_;
};
class cogroup_element {
public:
    using column = mapping_element;
    cogroup_element(descriptor::relation s, std::vector<column> c) : s_(std::move(s)), c_(std::move(c)) {}
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
};
class values_row {
public:
    explicit values_row(std::vector<scalar::expression_ptr> e) : e_(std::make_shared<scalar::expression_list<scalar::expression>>(std::move(e))) {}
    [[nodiscard]] scalar::expression_list<scalar::expression> const& elements() const noexcept { return *e_; }
private:
    std::shared_ptr<scalar::expression_list<scalar::expression>> e_;
};
}

class find : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    find(descriptor::relation s, std::vector<column> c, std::vector<key> k) : expression(0, 1), s_(std::move(s)), c_(std::move(c)), k_(std::move(k)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::find; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] tree::tree_fragment_vector<key> const& keys() const noexcept { return k_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
    tree::tree_fragment_vector<key> k_;
};
class scan : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    using endpoint = details::endpoint;
    scan(descriptor::relation s, std::vector<column> c, endpoint lower = {}, endpoint upper = {}, std::optional<std::size_t> limit = {}) :
        expression(0, 1), s_(std::move(s)), c_(std::move(c)), l_(std::move(lower)), u_(std::move(upper)), limit_(limit) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::scan; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] endpoint const& lower() const noexcept { return l_; }
    [[nodiscard]] endpoint const& upper() const noexcept { return u_; }
    [[nodiscard]] std::optional<std::size_t> limit() const noexcept { return limit_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
    endpoint l_, u_;
    std::optional<std::size_t> limit_;
};
class join_find : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    join_find(join_kind op, descriptor::relation s, std::vector<column> c, std::vector<key> k, scalar::expression_ptr cond = {}) :
        expression(1, 1), op_(op), s_(std::move(s)), c_(std::move(c)), k_(std::move(k)), cond_(std::move(cond)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_find; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return op_; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] tree::tree_fragment_vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{cond_.get()}; }
private:
    join_kind op_;
    descriptor::relation s_;
    std::vector<column> c_;
    tree::tree_fragment_vector<key> k_;
    scalar::expression_ptr cond_;
};
class join_scan : public expression {
public:
    using column = details::mapping_element;
    using key = details::search_key_element;
    using endpoint = details::endpoint;
    join_scan(join_kind op, descriptor::relation s, std::vector<column> c, endpoint lower, endpoint upper, scalar::expression_ptr cond = {}) :
        expression(1, 1), op_(op), s_(std::move(s)), c_(std::move(c)), l_(std::move(lower)), u_(std::move(upper)), cond_(std::move(cond)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_scan; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return op_; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
    [[nodiscard]] endpoint const& lower() const noexcept { return l_; }
    [[nodiscard]] endpoint const& upper() const noexcept { return u_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{cond_.get()}; }
private:
    join_kind op_;
    descriptor::relation s_;
    std::vector<column> c_;
    endpoint l_, u_;
    scalar::expression_ptr cond_;
};
class apply : public expression {
public:
    using column = details::apply_column;
    apply(apply_kind op, descriptor::function f, std::vector<scalar::expression_ptr> a, std::vector<column> c) :
        expression(1, 1), op_(op), f_(std::move(f)), a_(std::move(a)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::apply; }
    [[nodiscard]] apply_kind operator_kind() const noexcept { return op_; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] scalar::expression_list<scalar::expression> const& arguments() const noexcept { return a_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    apply_kind op_;
    descriptor::function f_;
    scalar::expression_list<scalar::expression> a_;
    std::vector<column> c_;
};
class project : public expression {
public:
    using column = details::assignment;
    explicit project(std::vector<column> c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::project; }
    [[nodiscard]] tree::tree_fragment_vector<column> const& columns() const noexcept { return c_; }
private:
    tree::tree_fragment_vector<column> c_;
};
class filter : public expression {
public:
    explicit filter(scalar::expression_ptr c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::filter; }
    [[nodiscard]] scalar::expression const& condition() const noexcept { return *c_; }
private:
    scalar::expression_ptr c_;
};
class buffer : public expression {
public:
    explicit buffer(std::size_t n) : expression(1, n) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::buffer; }
};
class identify : public expression {
public:
    explicit identify(descriptor::variable v) : expression(1, 1), v_(std::move(v)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::identify; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
private:
    descriptor::variable v_;
};
class emit : public expression {
public:
    using column = details::emit_element;
    explicit emit(std::vector<column> c) : expression(1, 0), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::emit; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    std::vector<column> c_;
};
class write : public expression {
public:
    using key = details::mapping_element;
    using column = details::mapping_element;
    write(write_kind op, descriptor::relation d, std::vector<key> k, std::vector<column> c) :
        expression(1, 0), op_(op), d_(std::move(d)), k_(std::move(k)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::write; }
    [[nodiscard]] write_kind operator_kind() const noexcept { return op_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return k_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    write_kind op_;
    descriptor::relation d_;
    std::vector<key> k_;
    std::vector<column> c_;
};
class values : public expression {
public:
    using row = details::values_row;
    values(std::vector<descriptor::variable> c, std::vector<row> r) : expression(0, 1), c_(std::move(c)), r_(std::move(r)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::values; }
    [[nodiscard]] std::vector<descriptor::variable> const& columns() const noexcept { return c_; }
    [[nodiscard]] tree::tree_fragment_vector<row> const& rows() const noexcept { return r_; }
private:
    std::vector<descriptor::variable> c_;
    tree::tree_fragment_vector<row> r_;
};

namespace step {
class join : public expression {
public:
    explicit join(join_kind op, scalar::expression_ptr cond = {}) : expression(1, 1), op_(op), cond_(std::move(cond)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::join_group; }
    [[nodiscard]] join_kind operator_kind() const noexcept { return op_; }
    [[nodiscard]] util::optional_ptr<scalar::expression const> condition() const noexcept { return util::optional_ptr<scalar::expression const>{cond_.get()}; }
private:
    join_kind op_;
    scalar::expression_ptr cond_;
};
class aggregate : public expression {
public:
    using column = details::aggregate_element;
    explicit aggregate(std::vector<column> c) : expression(1, 1), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::aggregate_group; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    std::vector<column> c_;
};
class intersection : public expression {
public:
    intersection() : expression(1, 1) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::intersection_group; }
};
class difference : public expression {
public:
    difference() : expression(1, 1) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::difference_group; }
};
class flatten : public expression {
public:
    flatten() : expression(1, 1) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::flatten_group; }
};
class take_flat : public expression {
public:
    using column = details::mapping_element;
    take_flat(descriptor::relation s, std::vector<column> c) : expression(0, 1), s_(std::move(s)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::take_flat; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
};
class take_group : public expression {
public:
    using column = details::mapping_element;
    take_group(descriptor::relation s, std::vector<column> c) : expression(0, 1), s_(std::move(s)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::take_group; }
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    descriptor::relation s_;
    std::vector<column> c_;
};
class take_cogroup : public expression {
public:
    using group = details::cogroup_element;
    explicit take_cogroup(std::vector<group> g) : expression(0, 1), g_(std::move(g)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::take_cogroup; }
    [[nodiscard]] std::vector<group> const& groups() const noexcept { return g_; }
private:
    std::vector<group> g_;
};
class offer : public expression {
public:
    using column = details::mapping_element;
    offer(descriptor::relation d, std::vector<column> c) : expression(1, 0), d_(std::move(d)), c_(std::move(c)) {}
    [[nodiscard]] expression_kind kind() const noexcept override { return expression_kind::offer; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return c_; }
private:
    descriptor::relation d_;
    std::vector<column> c_;
};
template <class V>
auto dispatch(V&& v, expression const& e) {
    using k = expression_kind;
    switch (e.kind()) {
        case k::find: return v(static_cast<find const&>(e));
        case k::scan: return v(static_cast<scan const&>(e));
        case k::join_find: return v(static_cast<join_find const&>(e));
        case k::join_scan: return v(static_cast<join_scan const&>(e));
        case k::apply: return v(static_cast<apply const&>(e));
        case k::project: return v(static_cast<project const&>(e));
        case k::filter: return v(static_cast<filter const&>(e));
        case k::buffer: return v(static_cast<buffer const&>(e));
        case k::identify: return v(static_cast<identify const&>(e));
        case k::emit: return v(static_cast<emit const&>(e));
        case k::write: return v(static_cast<write const&>(e));
        case k::values: return v(static_cast<values const&>(e));
        case k::join_group: return v(static_cast<join const&>(e));
        case k::aggregate_group: return v(static_cast<aggregate const&>(e));
        case k::intersection_group: return v(static_cast<intersection const&>(e));
        case k::difference_group: return v(static_cast<difference const&>(e));
        case k::flatten_group: return v(static_cast<flatten const&>(e));
        case k::take_flat: return v(static_cast<take_flat const&>(e));
        case k::take_group: return v(static_cast<take_group const&>(e));
        case k::take_cogroup: return v(static_cast<take_cogroup const&>(e));
        case k::offer: return v(static_cast<offer const&>(e));
        default: std::abort();
    }
}
}
}
