#pragma once
#include <map>
#include <optional>
#include <string>
#include <string_view>
namespace sharksfin {
class DatabaseOptions {
public:
    DatabaseOptions& attribute(std::string_view k, std::string_view v) { m_.insert_or_assign(std::string{k}, std::string{v}); return *this; }
    [[nodiscard]] std::optional<std::string> attribute(std::string_view k) const {
        auto it = m_.find(std::string{k});
        if (it == m_.end()) return {};
        return it->second;
    }
    [[nodiscard]] std::map<std::string, std::string> const& attributes() const noexcept { return m_; }
private:
    std::map<std::string, std::string> m_{};
};
}
