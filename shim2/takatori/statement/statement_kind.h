#pragma once
#include <ostream>
namespace takatori::statement {
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table, rename_column, rename_index, rename_table, empty, extension };
}
