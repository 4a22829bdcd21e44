#pragma once
#include <takatori/graph/graph.h>
#include <takatori/plan/step.h>
namespace takatori::plan {
using graph_type = ::takatori::graph::graph<step>;
}
