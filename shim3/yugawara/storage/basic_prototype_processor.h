#pragma once
#include <yugawara/storage/prototype_processor.h>
