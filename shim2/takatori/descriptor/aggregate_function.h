#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using aggregate_function = element<descriptor_kind::aggregate_function>;
}
