#pragma once
#include <yugawara/storage/table.h>
