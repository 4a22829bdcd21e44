#pragma once
#include <memory>
#include <takatori/statement/statement.h>
#include <yugawara/compiled_info.h>
namespace yugawara {
class compiler_result {
public:
    using info_type = compiled_info;
};
}
