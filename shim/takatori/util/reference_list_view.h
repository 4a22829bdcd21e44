#pragma once
#include <takatori/util/reference_iterator.h>
#include <takatori/util/sequence_view.h>
