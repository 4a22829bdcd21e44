#pragma once
#include <takatori/value/data.h>
namespace takatori::value {
using octet = simple_value<value_kind::octet, std::string, std::string_view>;
}
