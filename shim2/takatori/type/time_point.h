#pragma once
#include <takatori/type/data.h>
#include <takatori/type/with_time_zone.h>
namespace takatori::type {
class time_point : public impl::base<type_kind::time_point, time_point> {
public:
    explicit time_point(bool tz = false) : tz_(tz) {}
    explicit time_point(with_time_zone_t t) : tz_(t.value) {}
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    bool equals(data const& o) const noexcept override {
        return o.kind() == kind() && static_cast<time_point const&>(o).tz_ == tz_;
    }
private:
    bool tz_;
};
}
