#pragma once
#include <takatori/serializer/json_printer.h>
