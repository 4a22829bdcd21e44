#pragma once
#include <takatori/util/enum_set.h>
namespace yugawara::storage {
enum class column_feature { synthesized, hidden, read_only };
using column_feature_set = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
}
