#pragma once
#include <any>
#include <string>
#include <vector>
#include <takatori/descriptor/schema.h>
#include <takatori/descriptor/storage.h>
#include <takatori/statement/statement.h>
#include <takatori/util/enum_set.h>
// Stand-in for takatori's definition statements: what the engine reads from a compiled statement.
namespace takatori::statement {
class create_table : public statement {
public:
    create_table(descriptor::storage d, descriptor::storage pk) : d_(std::move(d)), pk_(std::move(pk)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::create_table; }
    [[nodiscard]] descriptor::storage const& definition() const noexcept { return d_; }
    [[nodiscard]] descriptor::storage const& primary_key() const noexcept { return pk_; }
private:
    descriptor::storage d_, pk_;
};
class drop_table : public statement {
public:
    explicit drop_table(descriptor::storage d) : d_(std::move(d)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::drop_table; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return d_; }
private:
    descriptor::storage d_;
};
class create_index : public statement {
public:
    explicit create_index(descriptor::storage d) : d_(std::move(d)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::create_index; }
    [[nodiscard]] descriptor::storage const& definition() const noexcept { return d_; }
private:
    descriptor::storage d_;
};
class drop_index : public statement {
public:
    explicit drop_index(descriptor::storage d) : d_(std::move(d)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::drop_index; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return d_; }
private:
    descriptor::storage d_;
};
enum class truncate_table_option_kind { restart_identity, continue_identity };
using truncate_table_option_set = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::continue_identity>;
class truncate_table : public statement {
public:
    explicit truncate_table(descriptor::storage d, truncate_table_option_set o = {}) : d_(std::move(d)), o_(o) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::truncate_table; }
    [[nodiscard]] descriptor::storage const& target() const noexcept { return d_; }
    [[nodiscard]] truncate_table_option_set const& options() const noexcept { return o_; }
private:
    descriptor::storage d_;
    truncate_table_option_set o_;
};
enum class authorization_user_kind { specified, current_user, all_users };
namespace details {
class table_privilege_action {
public:
    enum class action_kind_type { control, select, insert, update, delete_ };
    table_privilege_action(action_kind_type k) : k_(k) {}  // NOLINT
    [[nodiscard]] action_kind_type action_kind() const noexcept { return k_; }
private:
    action_kind_type k_;
};
class table_authorization_entry {
public:
    table_authorization_entry(authorization_user_kind k, std::string id, std::vector<table_privilege_action> p) : k_(k), id_(std::move(id)), p_(std::move(p)) {}
    [[nodiscard]] authorization_user_kind user_kind() const noexcept { return k_; }
    [[nodiscard]] std::string const& authorization_identifier() const noexcept { return id_; }
    [[nodiscard]] std::vector<table_privilege_action> const& privileges() const noexcept { return p_; }
private:
    authorization_user_kind k_;
    std::string id_;
    std::vector<table_privilege_action> p_;
};
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) :
        t_(std::move(t)), d_(std::move(d)), e_(std::move(e)) {}
    [[nodiscard]] descriptor::storage const& table() const noexcept { return t_; }
    [[nodiscard]] std::vector<table_privilege_action> const& default_privileges() const noexcept { return d_; }
    [[nodiscard]] std::vector<table_authorization_entry> const& authorization_entries() const noexcept { return e_; }
private:
    descriptor::storage t_;
    std::vector<table_privilege_action> d_;
    std::vector<table_authorization_entry> e_;
};
}
class grant_table : public statement {
public:
    explicit grant_table(std::vector<details::table_privilege_element> e) : e_(std::move(e)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::grant_table; }
    [[nodiscard]] std::vector<details::table_privilege_element> const& elements() const noexcept { return e_; }
private:
    std::vector<details::table_privilege_element> e_;
};
class revoke_table : public statement {
public:
    explicit revoke_table(std::vector<details::table_privilege_element> e) : e_(std::move(e)) {}
    [[nodiscard]] statement_kind kind() const noexcept override { return statement_kind::revoke_table; }
    [[nodiscard]] std::vector<details::table_privilege_element> const& elements() const noexcept { return e_; }
private:
    std::vector<details::table_privilege_element> e_;
};
}
