#pragma once
namespace yugawara::analyzer { enum class variable_resolution_kind { unresolved, unknown, scalar_expression, table_column, external, function_call, aggregation }; }
