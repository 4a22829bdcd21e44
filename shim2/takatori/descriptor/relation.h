#pragma once
#include <takatori/descriptor/element.h>
namespace takatori::descriptor {
using relation = element<descriptor_kind::relation>;
}
