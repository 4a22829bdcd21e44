#pragma once
#include <tateyama/framework/component.h>
namespace tateyama::framework {
constexpr inline component::id_type resource_id_sql = 3;
constexpr inline component::id_type service_id_sql = 3;
}
