#pragma once
#include <takatori/decimal/triple.h>
#include <takatori/value/data.h>
namespace takatori::value {
using decimal = simple_value<value_kind::decimal, ::takatori::decimal::triple>;
}
