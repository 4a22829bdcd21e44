#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using declared_type = element<descriptor_kind::declared_type>;
}
