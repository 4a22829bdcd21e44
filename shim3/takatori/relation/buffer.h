#pragma once
#include <takatori/relation/ir.h>
