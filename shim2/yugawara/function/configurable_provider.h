#pragma once
#include <functional>
#include <memory>
#include <shared_mutex>
#include <string_view>
#include <vector>
#include <yugawara/function/declaration.h>
namespace yugawara::function {
template <class M>
class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> add(declaration d) {
        return list_.emplace_back(std::make_shared<declaration const>(std::move(d)));
    }
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration const> d) { return list_.emplace_back(std::move(d)); }
    [[nodiscard]] std::vector<std::shared_ptr<declaration const>> const& list() const noexcept { return list_; }
    void each(std::function<void(std::shared_ptr<declaration const> const&)> const& f) const { for (auto& d : list_) f(d); }
private:
    std::vector<std::shared_ptr<declaration const>> list_{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}
