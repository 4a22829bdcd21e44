#pragma once
#include <takatori/serializer/object_scanner.h>
