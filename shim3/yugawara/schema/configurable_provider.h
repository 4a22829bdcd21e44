#pragma once
#include <yugawara/schema/declaration.h>
namespace yugawara::schema {
class configurable_provider {
public:
    std::shared_ptr<declaration const> const& add(declaration d) { return v_.emplace_back(std::make_shared<declaration const>(std::move(d))); }
private:
    std::vector<std::shared_ptr<declaration const>> v_{};
};
class catalog {
public:
    explicit catalog(std::string n) : n_(std::move(n)) {}
    void schema_provider(std::shared_ptr<configurable_provider> p) { p_ = std::move(p); }
private:
    std::string n_;
    std::shared_ptr<configurable_provider> p_{};
};
class search_path {
public:
    search_path(std::initializer_list<std::shared_ptr<declaration const>> l) : l_(l) {}
private:
    std::vector<std::shared_ptr<declaration const>> l_;
};
}
