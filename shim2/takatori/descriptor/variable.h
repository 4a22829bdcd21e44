#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using variable = element<descriptor_kind::variable>;
}
