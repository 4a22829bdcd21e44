#pragma once
#include <tateyama/task_scheduler/context.h>
#include <tateyama/task_scheduler/schedule_option.h>
