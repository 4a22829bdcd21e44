#pragma once
#include <string>
#include <string_view>
#include <takatori/descriptor/aggregate_function.h>
#include <takatori/descriptor/function.h>
#include <takatori/descriptor/relation.h>
#include <takatori/descriptor/storage.h>
#include <takatori/descriptor/variable.h>
#include <takatori/plan/step.h>
#include <yugawara/aggregate/declaration.h>
#include <yugawara/binding/extract.h>
#include <yugawara/function/declaration.h>
#include <yugawara/storage/column.h>
#include <yugawara/storage/index.h>
#include <yugawara/storage/table.h>
#include <yugawara/variable/declaration.h>
namespace yugawara::binding {
/// a variable of a stream
class stream_variable : public takatori::descriptor::object {
public:
    explicit stream_variable(std::string l = {}) : label_(std::move(l)) {}
    [[nodiscard]] std::string const& label() const noexcept { return label_; }
private:
    std::string label_;
};
class factory {
public:
    [[nodiscard]] takatori::descriptor::variable operator()(storage::column const& c) const {
        return takatori::descriptor::variable{std::make_shared<referred<storage::column>>(c)};
    }
    [[nodiscard]] takatori::descriptor::variable table_column(storage::column const& c) const { return (*this)(c); }
    [[nodiscard]] takatori::descriptor::relation operator()(storage::index const& c) const {
        return takatori::descriptor::relation{std::make_shared<referred<storage::index>>(c)};
    }
    [[nodiscard]] takatori::descriptor::relation operator()(takatori::plan::exchange const& c) const {
        return takatori::descriptor::relation{std::make_shared<referred<takatori::plan::exchange>>(c)};
    }
    [[nodiscard]] takatori::descriptor::relation exchange(takatori::plan::exchange const& c) const { return (*this)(c); }
    [[nodiscard]] takatori::descriptor::variable operator()(std::shared_ptr<variable::declaration const> d) const {
        return takatori::descriptor::variable{std::make_shared<declared<variable::declaration>>(std::move(d))};
    }
    [[nodiscard]] takatori::descriptor::variable stream_variable(std::string_view label = {}) const {
        return takatori::descriptor::variable{std::make_shared<class stream_variable>(std::string{label})};
    }
    [[nodiscard]] takatori::descriptor::variable exchange_column(std::string_view label = {}) const { return stream_variable(label); }
    [[nodiscard]] takatori::descriptor::function operator()(std::shared_ptr<function::declaration const> d) const {
        return takatori::descriptor::function{std::make_shared<declared<function::declaration>>(std::move(d))};
    }
    [[nodiscard]] takatori::descriptor::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> d) const {
        return takatori::descriptor::aggregate_function{std::make_shared<declared<aggregate::declaration>>(std::move(d))};
    }
    [[nodiscard]] takatori::descriptor::storage operator()(std::shared_ptr<storage::table const> d) const {
        return takatori::descriptor::storage{std::make_shared<declared<storage::table>>(std::move(d))};
    }
    [[nodiscard]] takatori::descriptor::storage storage(std::shared_ptr<yugawara::storage::index const> d) const {
        return takatori::descriptor::storage{std::make_shared<declared<yugawara::storage::index>>(std::move(d))};
    }
};
}
