#pragma once
#include <takatori/type/data.h>
#include <takatori/type/with_time_zone.h>
namespace takatori::type {
class time_of_day : public impl::base<type_kind::time_of_day, time_of_day> {
public:
    explicit time_of_day(bool tz = false) : tz_(tz) {}
    explicit time_of_day(with_time_zone_t t) : tz_(t.value) {}
    [[nodiscard]] bool with_time_zone() const noexcept { return tz_; }
    bool equals(data const& o) const noexcept override {
        return o.kind() == kind() && static_cast<time_of_day const&>(o).tz_ == tz_;
    }
private:
    bool tz_;
};
}
