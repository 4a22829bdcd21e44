#pragma once
#include <memory>
#include <ostream>
#include <optional>
#include <string>
#include <string_view>
namespace sharksfin {
enum class ErrorLocatorKind { unknown, storage_key };
inline std::ostream& operator<<(std::ostream& out, ErrorLocatorKind k) { return out << (k == ErrorLocatorKind::unknown ? "unknown" : "storage_key"); }
class ErrorLocator {
public:
    virtual ~ErrorLocator() = default;
    [[nodiscard]] virtual ErrorLocatorKind kind() const noexcept = 0;
};
class StorageKeyErrorLocator : public ErrorLocator {
public:
    StorageKeyErrorLocator(std::optional<std::string> k, std::optional<std::string> s) : key_(std::move(k)), storage_(std::move(s)) {}
    [[nodiscard]] ErrorLocatorKind kind() const noexcept override { return ErrorLocatorKind::storage_key; }
    [[nodiscard]] std::optional<std::string_view> key() const noexcept { if (key_) return *key_; return {}; }
    [[nodiscard]] std::optional<std::string_view> storage() const noexcept { if (storage_) return *storage_; return {}; }
private:
    std::optional<std::string> key_, storage_;
};
}
