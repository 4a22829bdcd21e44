#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <yugawara/storage/index.h>
#include <yugawara/storage/sequence.h>
#include <yugawara/storage/table.h>
namespace yugawara::storage {
class configurable_provider {
public:
    configurable_provider() = default;
    template <class T> std::shared_ptr<T> add_table(std::shared_ptr<T> t, bool overwrite = true) { put<table>(tables_, t->simple_name(), t, overwrite); t->set_owner(this); return t; }
    template <class T> std::shared_ptr<T> add_index(std::shared_ptr<T> t, bool overwrite = true) { put<index>(indices_, t->simple_name(), t, overwrite); return t; }
    template <class T> std::shared_ptr<T> add_sequence(std::shared_ptr<T> t, bool overwrite = true) { put<sequence>(sequences_, t->simple_name(), t, overwrite); return t; }
    struct table_definition {
        table_definition(std::string_view n, std::initializer_list<column> c) : name(n), columns(c) {}
        std::string name;
        std::vector<column> columns;
    };
    std::shared_ptr<table> add_table(table_definition d, bool overwrite = true) { return add_table(std::make_shared<table>(std::nullopt, std::move(d.name), std::move(d.columns)), overwrite); }
    std::shared_ptr<index> add_index(index x, bool overwrite = true) { return add_index(std::make_shared<index>(std::move(x)), overwrite); }
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view n) const { return get(tables_, n); }
    [[nodiscard]] std::shared_ptr<table const> find_relation(std::string_view n) const { return get(tables_, n); }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view n) const { return get(indices_, n); }
    [[nodiscard]] std::shared_ptr<sequence const> find_sequence(std::string_view n) const { return get(sequences_, n); }
    [[nodiscard]] std::shared_ptr<index const> find_primary_index(table const& t) const {
        auto c = copy(indices_);
        for (auto& [k, v] : c) if (&v->table() == &t && v->features().contains(index_feature::primary)) return v;
        return {};
    }
    void each_relation(std::function<void(std::string_view, std::shared_ptr<table const> const&)> const& f) const { auto c = copy(tables_); for (auto& [k, v] : c) f(k, v); }
    void each_index(std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& f) const { auto c = copy(indices_); for (auto& [k, v] : c) f(k, v); }
    void each_sequence(std::function<void(std::string_view, std::shared_ptr<sequence const> const&)> const& f) const { auto c = copy(sequences_); for (auto& [k, v] : c) f(k, v); }
    void each_table_index(table const& t, std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& f) const {
        auto c = copy(indices_);
        for (auto& [k, v] : c) if (&v->table() == &t) f(k, v);
    }
    bool remove_relation(std::string_view n) { std::lock_guard g{mutex_}; return tables_.erase(std::string{n}) != 0; }
    bool remove_index(std::string_view n) { std::lock_guard g{mutex_}; return indices_.erase(std::string{n}) != 0; }
    bool remove_sequence(std::string_view n) { std::lock_guard g{mutex_}; return sequences_.erase(std::string{n}) != 0; }
private:
    template <class T> using map = std::map<std::string, std::shared_ptr<T const>, std::less<>>;
    template <class T> std::shared_ptr<T const> get(map<T> const& m, std::string_view n) const {
        std::lock_guard g{mutex_};
        auto it = m.find(n);
        return it == m.end() ? nullptr : it->second;
    }
    template <class T> std::shared_ptr<T const> put(map<T>& m, std::string const& n, std::shared_ptr<T const> v, bool overwrite) {
        std::lock_guard g{mutex_};
        if (! overwrite && m.count(n) != 0) throw std::invalid_argument("already exists");
        return m[n] = std::move(v);
    }
    template <class M> M copy(M const& m) const { std::lock_guard g{mutex_}; return m; }
    mutable std::recursive_mutex mutex_{};
    map<table> tables_{};
    map<index> indices_{};
    map<sequence> sequences_{};
};
}
