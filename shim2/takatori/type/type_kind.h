#pragma once
#include <ostream>
#include <string_view>
#include <takatori/util/enum_set.h>
namespace takatori::type {
enum class type_kind {
    boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day,
    time_point, blob, clob, datetime_interval, array, record, unknown, row_reference, row_id, table, declared, extension,
};
inline constexpr std::string_view to_string_view(type_kind k) noexcept {
    constexpr std::string_view n[] = {
        "boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date",
        "time_of_day", "time_point", "blob", "clob", "datetime_interval", "array", "record", "unknown", "row_reference",
        "row_id", "table", "declared", "extension"};
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& out, type_kind k) { return out << to_string_view(k); }
}
