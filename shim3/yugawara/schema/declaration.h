#pragma once
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include <yugawara/aggregate/configurable_provider.h>
#include <yugawara/function/configurable_provider.h>
#include <yugawara/storage/provider.h>
#include <yugawara/variable/configurable_provider.h>
namespace yugawara::schema {
class declaration {
public:
    explicit declaration(std::string n, std::shared_ptr<storage::provider const> p = {}) : n_(std::move(n)), p_(std::move(p)) {}
    declaration(std::optional<std::size_t>, std::string n, std::shared_ptr<storage::provider const> p, std::shared_ptr<variable::configurable_provider const>,
        std::shared_ptr<function::configurable_provider const> f, std::shared_ptr<aggregate::configurable_provider const> a) :
        n_(std::move(n)), p_(std::move(p)), f_(std::move(f)), a_(std::move(a)) {}
    [[nodiscard]] std::string const& name() const noexcept { return n_; }
    [[nodiscard]] std::shared_ptr<storage::provider const> const& shared_storage_provider() const noexcept { return p_; }
    [[nodiscard]] std::shared_ptr<function::configurable_provider const> const& functions() const noexcept { return f_; }
    [[nodiscard]] std::shared_ptr<aggregate::configurable_provider const> const& aggregates() const noexcept { return a_; }
private:
    std::string n_;
    std::shared_ptr<storage::provider const> p_;
    std::shared_ptr<function::configurable_provider const> f_;
    std::shared_ptr<aggregate::configurable_provider const> a_;
};
}
