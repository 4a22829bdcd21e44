#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using schema = element<descriptor_kind::schema>;
}
