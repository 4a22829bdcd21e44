#pragma once
#include <takatori/document/region.h>
