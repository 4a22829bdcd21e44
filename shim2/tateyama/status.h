#pragma once
namespace tateyama { enum class status { ok, unknown, operation_denied, not_found, timeout }; }
