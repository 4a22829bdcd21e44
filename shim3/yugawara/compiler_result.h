#pragma once
#include <memory>
#include <string>
#include <vector>
#include <takatori/document/region.h>
#include <takatori/statement/statement.h>
#include <yugawara/compiled_info.h>
#include <yugawara/compiler_code.h>
namespace yugawara {
class compiler_diagnostic {
public:
    compiler_diagnostic(compiler_code c, std::string m) : c_(c), m_(std::move(m)) {}
    [[nodiscard]] compiler_code code() const noexcept { return c_; }
    [[nodiscard]] std::string const& message() const noexcept { return m_; }
    [[nodiscard]] takatori::document::region location() const noexcept { return {}; }
private:
    compiler_code c_;
    std::string m_;
};
class compiler_result {
public:
    using info_type = compiled_info;
    compiler_result() = default;
    compiler_result(std::unique_ptr<takatori::statement::statement> s, info_type i) : s_(std::move(s)), i_(std::move(i)) {}
    explicit compiler_result(std::vector<compiler_diagnostic> d) : d_(std::move(d)) {}
    [[nodiscard]] bool success() const noexcept { return s_ != nullptr; }
    [[nodiscard]] std::vector<compiler_diagnostic> const& diagnostics() const noexcept { return d_; }
    [[nodiscard]] std::unique_ptr<takatori::statement::statement> release_statement() noexcept { return std::move(s_); }
    [[nodiscard]] info_type& info() noexcept { return i_; }
private:
    std::unique_ptr<takatori::statement::statement> s_{};
    info_type i_{};
    std::vector<compiler_diagnostic> d_{};
};
}
