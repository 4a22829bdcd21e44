#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using storage = element<descriptor_kind::storage>;
}
