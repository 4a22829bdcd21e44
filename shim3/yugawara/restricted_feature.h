#pragma once
#include <initializer_list>
#include <set>
namespace yugawara {
enum class restricted_feature { relation_identify, relation_difference, relation_intersection, exchange_broadcast, exchange_discard,
    statement_write_delete, statement_write_update, statement_rename_column, statement_rename_index, statement_rename_table,
    statement_truncate_table, statement_truncate_table_restart_identity };
class restricted_feature_set {
public:
    restricted_feature_set& operator+=(std::initializer_list<restricted_feature> l) { for (auto f : l) s_.insert(f); return *this; }
    [[nodiscard]] bool contains(restricted_feature f) const { return s_.count(f) != 0; }
private:
    std::set<restricted_feature> s_{};
};
}
