#pragma once
#include <set>
namespace yugawara {
enum class runtime_feature { broadcast_exchange, aggregate_exchange, index_join, broadcast_join_scan, index_join_scan, always_inline_scalar_local_variables };
using runtime_feature_set = std::set<runtime_feature>;
}
