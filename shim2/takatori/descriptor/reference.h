#pragma once
#include <takatori/descriptor/element.h>
