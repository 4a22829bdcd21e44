#pragma once
#include <takatori/datetime/time_point.h>
#include <takatori/value/data.h>
namespace takatori::value {
using time_point = simple_value<value_kind::time_point, ::takatori::datetime::time_point>;
}
