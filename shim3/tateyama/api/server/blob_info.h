#pragma once
#include <tateyama/api/server/response.h>
