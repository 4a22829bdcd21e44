#pragma once
#include <takatori/graph/graph.h>
#include <takatori/relation/expression.h>
namespace takatori::relation {
using graph_type = ::takatori::graph::graph<expression>;
}
