#pragma once
#include <takatori/value/primitive.h>
