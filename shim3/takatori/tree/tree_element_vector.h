#pragma once
#include <takatori/tree/tree_fragment_vector.h>
#include <takatori/scalar/expression.h>
