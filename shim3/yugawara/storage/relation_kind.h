#pragma once
#include <yugawara/storage/relation.h>
