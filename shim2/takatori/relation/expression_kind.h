#pragma once
#include <ostream>
namespace takatori::relation {
enum class expression_kind {
    find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write,
    intermediate_join, intermediate_aggregate, intermediate_distinct, intermediate_limit, intermediate_union,
    intermediate_intersection, intermediate_difference, intermediate_escape, intermediate_extension,
    take_flat, take_group, take_cogroup, offer, join_group, aggregate_group, intersection_group, difference_group, flatten_group,
    intermediate_join_relation = intermediate_join,
};
inline std::ostream& operator<<(std::ostream& out, expression_kind k) { return out << static_cast<int>(k); }
}
