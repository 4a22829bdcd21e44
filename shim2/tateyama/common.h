#pragma once
#define cache_align alignas(64)
#define trace_scope_name(n)
#define trace_scope
