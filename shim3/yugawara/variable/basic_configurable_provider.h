#pragma once
#include <yugawara/variable/configurable_provider.h>
