#pragma once
#include <ostream>
namespace takatori::serializer {
class json_printer {
public:
    explicit json_printer(std::ostream& out) : out_(out) {}
    std::ostream& out() { return out_; }
private:
    std::ostream& out_;
};
}
