#pragma once
#include <takatori/type/blob.h>
#include <takatori/type/clob.h>
