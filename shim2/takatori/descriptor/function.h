#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using function = element<descriptor_kind::function>;
}
