#pragma once
#include <yugawara/storage/configurable_provider.h>
namespace yugawara::storage { using provider = configurable_provider; }
