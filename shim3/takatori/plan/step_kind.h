#pragma once
#include <takatori/plan/step.h>
