#pragma once
#include <unordered_map>
#include <takatori/descriptor/variable.h>
#include <yugawara/analyzer/variable_resolution.h>
namespace yugawara::analyzer {
class variable_mapping {
public:
    [[nodiscard]] variable_resolution find(takatori::descriptor::variable const& v) const {
        auto it = m_.find(v);
        return it == m_.end() ? variable_resolution{} : it->second;
    }
    void bind(takatori::descriptor::variable const& v, variable_resolution r) { m_[v] = r; }
private:
    std::unordered_map<takatori::descriptor::variable, variable_resolution> m_{};
};
}
