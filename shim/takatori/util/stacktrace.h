#pragma once
#include <takatori/util/exception.h>
