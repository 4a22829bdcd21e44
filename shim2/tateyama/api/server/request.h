#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <map>
#include <stdexcept>
#include <memory>
#include <mutex>
#include <variant>
#include <tateyama/api/server/response.h>
#include <tateyama/api/server/session_element.h>
// Stand-in for the server's request interface (the members jogasaki's engine reads).
namespace tateyama::api::server {
class database_info {
public:
    [[nodiscard]] std::string instance_id() const { return {}; }
};
enum class user_type { administrator, standard };
class session_info {
public:
    [[nodiscard]] std::size_t id() const { return id_; }
    [[nodiscard]] std::string label() const { return {}; }
    [[nodiscard]] std::optional<std::string_view> username() const { if (name_) return *name_; return {}; }
    [[nodiscard]] enum user_type user_type() const { return type_; }
    std::size_t id_{};
    std::optional<std::string> name_{};
    enum user_type type_{server::user_type::administrator};
};
/// objects that live as long as the session
class session_store {
public:
    template <class T> bool put(std::size_t id, std::shared_ptr<T> e) {
        std::lock_guard g{mutex_};
        return m_.emplace(id, std::move(e)).second;
    }
    void dispose() {
        std::map<std::size_t, std::shared_ptr<session_element>> m;
        { std::lock_guard g{mutex_}; m.swap(m_); }
        for (auto& [k, e] : m) e->dispose();
    }
    [[nodiscard]] std::size_t size() { std::lock_guard g{mutex_}; return m_.size(); }
private:
    std::mutex mutex_{};
    std::map<std::size_t, std::shared_ptr<session_element>> m_{};
};
class session_variable_set {
public:
    using value_type = std::variant<std::monostate, bool, std::int64_t, std::uint64_t, std::string>;
    [[nodiscard]] value_type get(std::string_view) const { return {}; }
};
class request {
public:
    virtual ~request() = default;
    [[nodiscard]] virtual std::size_t session_id() const = 0;
    [[nodiscard]] virtual std::size_t service_id() const = 0;
    [[nodiscard]] virtual std::size_t local_id() const = 0;
    [[nodiscard]] virtual std::string_view payload() const = 0;
    [[nodiscard]] virtual class database_info const& database_info() const noexcept { static class database_info d{}; return d; }
    [[nodiscard]] virtual class session_info const& session_info() const noexcept { static class session_info d{}; return d; }
    [[nodiscard]] virtual class session_store& session_store() noexcept { static class session_store d{}; return d; }
    [[nodiscard]] virtual class session_variable_set& session_variable_set() noexcept { static class session_variable_set d{}; return d; }
    [[nodiscard]] virtual bool has_blob(std::string_view) const noexcept { return false; }
    [[nodiscard]] virtual blob_info const& get_blob(std::string_view) const { throw std::out_of_range{"blob"}; }
};
}
