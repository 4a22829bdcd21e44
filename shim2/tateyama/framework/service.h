#pragma once
#include <memory>
#include <tateyama/framework/component.h>
#include <tateyama/api/server/request.h>
#include <tateyama/api/server/response.h>
#if __has_include(<tateyama/proto/diagnostics.pb.h>)
#include <tateyama/proto/diagnostics.pb.h>
#endif
namespace tateyama::framework {
class service : public component { public: virtual bool operator()(std::shared_ptr<tateyama::api::server::request>, std::shared_ptr<tateyama::api::server::response>) = 0; [[nodiscard]] virtual id_type id() const noexcept = 0; };
}
