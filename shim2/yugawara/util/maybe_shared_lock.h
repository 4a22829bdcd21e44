#pragma once
#include <mutex>
#include <shared_mutex>
