#pragma once
#include <yugawara/storage/column_value.h>
