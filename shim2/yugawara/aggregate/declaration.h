#pragma once
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <string>
#include <vector>
#include <takatori/type/data.h>
namespace yugawara::aggregate {
class declaration {
public:
    static constexpr char name_suffix_distinct[] = "$distinct";
    using definition_id_type = std::size_t;
    static constexpr definition_id_type undefined_id = 0;
    static constexpr definition_id_type minimum_system_function_id = 0x0001;
    static constexpr definition_id_type minimum_builtin_function_id = 10'000;
    static constexpr definition_id_type minimum_user_function_id = 20'000;
    class type_list {
    public:
        [[nodiscard]] takatori::type::data const& at(std::size_t i) const { return *v_.at(i); }
        takatori::type::data const& operator[](std::size_t i) const { return *v_[i]; }
        [[nodiscard]] std::size_t size() const noexcept { return v_.size(); }
        std::vector<std::shared_ptr<takatori::type::data const>> v_{};
    };
    struct type_ref {
        template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>>
        type_ref(T const& t) : t(t.copy()) {}  // NOLINT
        type_ref(std::shared_ptr<takatori::type::data const> t) : t(std::move(t)) {}  // NOLINT
        std::shared_ptr<takatori::type::data const> t;
    };
    declaration(definition_id_type id, std::string name, type_ref ret, std::initializer_list<type_ref> params, bool incremental = false) :
        id_(id), name_(std::move(name)), return_(std::move(ret.t)), incremental_(incremental) {
        for (auto const& p : params) params_.v_.push_back(p.t);
    }
    [[nodiscard]] definition_id_type definition_id() const noexcept { return id_; }
    [[nodiscard]] bool incremental() const noexcept { return incremental_; }
    [[nodiscard]] std::string const& name() const noexcept { return name_; }
    [[nodiscard]] takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] type_list const& parameter_types() const noexcept { return params_; }
    [[nodiscard]] std::shared_ptr<takatori::type::data const> const& shared_return_type() const noexcept { return return_; }
private:
    definition_id_type id_;
    std::string name_;
    std::shared_ptr<takatori::type::data const> return_;
    type_list params_{};
    bool incremental_{};
};
}
