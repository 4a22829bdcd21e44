#pragma once
#include <yugawara/storage/provider.h>
