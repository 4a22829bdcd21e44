#pragma once
#include <takatori/statement/ddl.h>
