#pragma once
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <yugawara/compiler_options.h>
#include <yugawara/compiler_result.h>
#include <yugawara/schema/declaration.h>
#include <yugawara/variable/configurable_provider.h>
// Stand-in for the SQL compiler: statement texts are keys of a registry that builds the plan.
namespace yugawara {
struct compile_environment {
    schema::declaration const& schema;                               // what the statement may refer to
    variable::configurable_provider const* host_variables;           // placeholders
    compiler_options const& options;
    compiled_info& info;                                             // types and resolutions to fill in
};
using statement_builder = std::function<std::unique_ptr<takatori::statement::statement>(compile_environment&)>;
struct compile_failure { compiler_code code; std::string message; };
struct pending_statement {
    statement_builder build;
    std::shared_ptr<schema::declaration const> schema;
    variable::configurable_provider const* host_variables{};
};
class compiler {
public:
    compiler_result operator()(compiler_options const& o, pending_statement&& p) const {
        compiled_info info{};
        compile_environment env{*p.schema, p.host_variables, o, info};
        try {
            auto s = p.build(env);
            return {std::move(s), std::move(info)};
        } catch (compile_failure const& f) {
            return compiler_result{std::vector<compiler_diagnostic>{{f.code, f.message}}};
        }
    }
};
/// statement text -> builder
class statement_registry {
public:
    static statement_registry& instance() { static statement_registry r{}; return r; }
    void put(std::string text, statement_builder b) { std::lock_guard g{mutex_}; m_[std::move(text)] = std::move(b); }
    void erase(std::string const& text) { std::lock_guard g{mutex_}; m_.erase(text); }
    [[nodiscard]] statement_builder find(std::string const& text) { std::lock_guard g{mutex_}; auto it = m_.find(text); return it == m_.end() ? statement_builder{} : it->second; }
private:
    std::mutex mutex_{};
    std::map<std::string, statement_builder> m_{};
};
}
