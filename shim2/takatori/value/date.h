#pragma once
#include <takatori/datetime/date.h>
#include <takatori/value/data.h>
namespace takatori::value {
using date = simple_value<value_kind::date, ::takatori::datetime::date>;
}
