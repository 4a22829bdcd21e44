#pragma once
#include <yugawara/storage/configurable_provider.h>
