#pragma once
#include <takatori/util/enum_set.h>
namespace yugawara::storage {
enum class index_feature { primary, find, scan, unique, unique_constraint };
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
}
