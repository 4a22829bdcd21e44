#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <yugawara/variable/declaration.h>
namespace yugawara::variable {
class configurable_provider {
public:
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view n) const {
        auto it = m_.find(std::string{n});
        return it == m_.end() ? nullptr : it->second;
    }
    void each(std::function<void(std::shared_ptr<declaration const> const&)> const& f) const { for (auto& [k, v] : m_) f(v); }
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration const> d, bool overwrite = false) {
        (void) overwrite;
        auto n = d->name();
        return m_[n] = std::move(d);
    }
    std::shared_ptr<declaration const> add(declaration d, bool overwrite = false) { return add(std::make_shared<declaration const>(std::move(d)), overwrite); }
private:
    std::map<std::string, std::shared_ptr<declaration const>> m_{};
};
}
