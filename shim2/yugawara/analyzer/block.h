#pragma once
#include <yugawara/analyzer/blocks.h>
