#pragma once
#include <takatori/datetime/time_of_day.h>
#include <takatori/value/data.h>
namespace takatori::value {
using time_of_day = simple_value<value_kind::time_of_day, ::takatori::datetime::time_of_day>;
}
