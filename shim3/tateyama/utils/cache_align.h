#pragma once
#include <tateyama/common.h>
