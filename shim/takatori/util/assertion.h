#pragma once
#include <cassert>
#include <stdexcept>
namespace takatori::util {
}
