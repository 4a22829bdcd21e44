#pragma once
#include <memory>
#include <yugawara/analyzer/index_estimator.h>
#include <yugawara/restricted_feature.h>
#include <yugawara/runtime_feature.h>
#include <yugawara/storage/prototype_processor.h>
namespace yugawara {
class compiler_options {
public:
    compiler_options(runtime_feature_set f, std::shared_ptr<storage::prototype_processor> sp, std::shared_ptr<analyzer::index_estimator>) :
        f_(std::move(f)), sp_(std::move(sp)) {}
    [[nodiscard]] runtime_feature_set const& runtime_features() const { return f_; }
    [[nodiscard]] std::shared_ptr<storage::prototype_processor> const& storage_processor() const { return sp_; }
    restricted_feature_set& restricted_features() { return r_; }
    bool& enable_disjunction_range_hinting() { return hint_; }
private:
    runtime_feature_set f_;
    std::shared_ptr<storage::prototype_processor> sp_;
    restricted_feature_set r_{};
    bool hint_{};
};
}
